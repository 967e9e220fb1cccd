----------------------------- MODULE Mechanism -----------------------------
(* The meaning of a KPP/MCM mechanism file: reactions are read one after the   *)
(* other; each adds one reaction record and numbers the species it shows for   *)
(* the first time.  A coefficient is an integer number of ten-thousandths, so it is *)
(* exact.  This module is the state machine; the harness never restates it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  rx,      \* reactions read so far, in file order:
           \*   [loss |-> [species -> ten-thousandths], gain |-> ..., rate |-> STRING]
  order,   \* species in order of first appearance; order[i] has number i-1
  num      \* species -> number (0-based)

mechVars == <<rx, order, num>>

Hv == "hv"                                  \* the photon is not a species
Background == {"AIR", "H2O", "O2"}          \* held constant, never integrated

EmptyFcn == [x \in {} |-> 0]

IsSpecies(t) == t.n # Hv
Named(ts) == SelectSeq(ts, IsSpecies)
NamesOf(ts) == {Named(ts)[i].n : i \in 1..Len(Named(ts))}

RECURSIVE Total(_, _, _)
Total(ts, n, i) == IF i > Len(ts) THEN 0
                   ELSE (IF ts[i].n = n THEN ts[i].c ELSE 0) + Total(ts, n, i + 1)

\* repeated terms add up
CoefMap(ts) == [n \in NamesOf(ts) |-> Total(ts, n, 1)]

RECURSIVE Extend(_, _, _)
Extend(ord, ts, i) ==
  IF i > Len(ts) THEN ord
  ELSE IF ts[i].n = Hv \/ \E k \in 1..Len(ord) : ord[k] = ts[i].n
       THEN Extend(ord, ts, i + 1)
       ELSE Extend(Append(ord, ts[i].n), ts, i + 1)

RECURSIVE ExtendNum(_, _, _)
ExtendNum(nm, ts, i) ==
  IF i > Len(ts) THEN nm
  ELSE IF ts[i].n = Hv \/ ts[i].n \in DOMAIN nm
       THEN ExtendNum(nm, ts, i + 1)
       ELSE ExtendNum((ts[i].n :> Cardinality(DOMAIN nm)) @@ nm, ts, i + 1)

NewOrder(r) ==      \* reactants first, then products
  LET n1 == ExtendNum(num, r.lhs \o r.rhs, 1)
      fresh == (DOMAIN n1) \ (DOMAIN num)
  IN order \o [i \in 1..Cardinality(fresh) |->
                 CHOOSE s \in fresh : n1[s] = Len(order) + i - 1]

MechInit == rx = <<>> /\ order = <<>> /\ num = EmptyFcn

\* r = [lhs: Seq([c, n]), rhs: Seq([c, n]), rate: STRING]
ReadReaction(r) ==
  /\ rx' = Append(rx, [loss |-> CoefMap(r.lhs), gain |-> CoefMap(r.rhs), rate |-> r.rate])
  /\ num' = ExtendNum(num, r.lhs \o r.rhs, 1)
  /\ order' = NewOrder(r)

Species == DOMAIN num
NumSpecies == Len(order)

\* ---- properties of the design (model-checked in MC_Mechanism) ----
Numbering ==      \* C02: a bijection onto 0..n-1
  /\ Cardinality(Species) = Len(order)
  /\ \A i \in 1..Len(order) : order[i] \in Species /\ num[order[i]] = i - 1
Covered ==        \* every species of a reaction is numbered and vice versa
  Species = UNION {DOMAIN rx[k].loss \cup DOMAIN rx[k].gain : k \in 1..Len(rx)}
NoPhoton == Hv \notin Species
FirstAppearance == \* a lower number never appears first in a later reaction
  \A i, j \in 1..Len(order) : i < j =>
    LET first(s) == CHOOSE k \in 1..Len(rx) :
                      /\ s \in DOMAIN rx[k].loss \cup DOMAIN rx[k].gain
                      /\ \A m \in 1..(k-1) : s \notin DOMAIN rx[m].loss \cup DOMAIN rx[m].gain
    IN first(order[i]) <= first(order[j])
AppendOnly ==     \* reading on never changes what was read
  [][/\ Len(rx') >= Len(rx) /\ SubSeq(rx', 1, Len(rx)) = rx
     /\ Len(order') >= Len(order) /\ SubSeq(order', 1, Len(order)) = order]_mechVars
=============================================================================

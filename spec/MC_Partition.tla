---------------------------- MODULE MC_Partition ----------------------------
(* The exchange step on small integer amounts: every layout (compounds, bins,  *)
(* choice of condensing compounds), every flux.  Conservation and the layout   *)
(* laws of module Partition hold along every history of exchanges.             *)
EXTENDS Partition, TLC, SequencesExt
CONSTANTS MaxSp, MaxBins, Fluxes, Depth
VARIABLES p, y, n
vars == <<p, y, n>>
SortedSeq(S) == SetToSortSeq(S, <)
Init == /\ \E nsp \in 1..MaxSp, nb \in 1..MaxBins : \E S \in SUBSET (0..(nsp - 2)) :
             p = [nsp |-> nsp, nb |-> nb, nc |-> Cardinality(S) + 1, inc |-> SortedSeq(S) \o <<nsp - 1>>]
        /\ y = [s \in 1..Total(p) |-> s * s + 1] /\ n = 0
Val(f, s) == FToInt(Exchange(p, f, s))
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED p
        /\ \E f \in [1..p.nb -> [1..p.nc -> Fluxes]] :
             LET g == [b \in 1..p.nb |-> [i \in 1..p.nc |-> [v |-> f[b][i]]]]
             IN y' = [s \in 1..Total(p) |-> y[s] + Val(g, s)]
Spec == Init /\ [][Next]_vars
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + SumOver(f, S \ {s})
SlotsOf(g) == {s \in 1..Total(p) : CompoundOf(p, s) = g}
\* C12
Conserved == \A g \in 0..(p.nsp - 1) : SumOver(y, SlotsOf(g)) = SumOver([s \in 1..Total(p) |-> s * s + 1], SlotsOf(g))
Untouched == \A g \in 0..(p.nsp - 1) : ~Condenses(p, g) => y[g + 1] = (g + 1) * (g + 1) + 1
LayoutIsABijection ==
  /\ \A b1, b2 \in 1..p.nb : \A i1, i2 \in 1..p.nc :
       Slot(p, b1, i1) = Slot(p, b2, i2) => b1 = b2 /\ i1 = i2
  /\ {Slot(p, b, i) : b \in 1..p.nb, i \in 1..p.nc} = (p.nsp + 1)..Total(p)
  /\ \A b \in 1..p.nb : \A i \in 1..p.nc :
       /\ CompoundOf(p, Slot(p, b, i)) = p.inc[i] /\ BinOf(p, Slot(p, b, i)) = b
  /\ \A i \in 1..p.nc : CompoundOf(p, GasSlot(p, i)) = p.inc[i]
WaterLast == p.inc[p.nc] = p.nsp - 1 /\ \A i, j \in 1..p.nc : i < j => p.inc[i] < p.inc[j]
=============================================================================

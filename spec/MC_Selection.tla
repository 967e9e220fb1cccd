--------------------------- MODULE MC_Selection ----------------------------
(* The selection one species at a time, and structures attached one database   *)
(* entry at a time, exhaustively in a small scope.                             *)
EXTENDS Selection, TLC
A == INSTANCE Attach
CONSTANTS Names, Structs, MaxSp, MaxDb
Vps == {"-9.0", "-6.0", "-2.0"}
D(s, v) == [mw |-> "100.0", C |-> "1", O |-> "1", H |-> "4", bp |-> [nannoolal |-> "0.0"], vp |-> [evaporation |-> v],
            crit |-> [nannoolal |-> "1.0"], dens |-> [girolami |-> "1.0"]]
VARIABLES u, k, inc, ign, order, db, att
vars == <<u, k, inc, ign, order, db, att>>
Ordered == {q \in UNION {[1..n -> Names] : n \in 0..MaxSp} : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}
Init == /\ order \in Ordered
        /\ \E kn \in SUBSET {order[i] : i \in 1..Len(order)} : \E f \in [kn -> Vps] :
             u = [order |-> order, data |-> [s \in kn |-> D(s, f[s])], vp |-> "evaporation", bp |-> "nannoolal", critical |-> "nannoolal",
                  density |-> "girolami", T |-> "298.15", drop |-> TRUE, cutoff |-> "-6.0"]
        /\ k = 0 /\ inc = {} /\ ign = {} /\ db = <<>> /\ att = {}
Classify == /\ k < Len(order) /\ k' = k + 1
            /\ IF Condensing(u, order[k + 1]) THEN inc' = inc \cup {k} /\ UNCHANGED ign ELSE ign' = ign \cup {k} /\ UNCHANGED inc
            /\ UNCHANGED <<u, order, db, att>>
\* entries of a database: one per name, any order
Entry == /\ k = Len(order) /\ Len(db) < MaxDb
         /\ \E n \in Names \cup {"OH"}, s \in Structs \cup {""} :
              /\ \A i \in 1..Len(db) : db[i].n # n
              /\ db' = Append(db, [n |-> n, s |-> s])
              /\ att' = IF s # "" /\ n # "OH" /\ (\E i \in 1..Len(order) : order[i] = n) THEN att \cup {<<n, s>>} ELSE att
         /\ UNCHANGED <<u, k, inc, ign, order>>
Next == Classify \/ Entry
Spec == Init /\ [][Next]_vars
Split == inc \cap ign = {} /\ inc \cup ign = 0..(k - 1)
Done == k = Len(order) => inc = Included(u)
CutOff == \A i \in inc : FLe(u.data[order[i + 1]].vp.evaporation, u.cutoff)
Attached == att = A!Structures(order, db)
OneEach == \A p, q \in att : p[1] = q[1] => p = q
OnlyOurs == \A p \in att : p[1] # "OH" /\ \E i \in 1..Len(order) : order[i] = p[1]
=============================================================================

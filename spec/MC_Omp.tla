------------------------------- MODULE MC_Omp -------------------------------
(* Every program of a small scope, every interleaving: without conflicting     *)
(* accesses the parallel region leaves what the sequential code leaves.        *)
EXTENDS Omp
CONSTANTS T, Locs, MaxStmt, NUnits, MaxReads, Mode, Privates, OnlySafe
Stmt == [w : Locs, r : {S \in SUBSET Locs : Cardinality(S) <= MaxReads}]
Units == UNION {[1..n -> Stmt] : n \in 0..MaxStmt}
Zero == [x \in Locs |-> <<"start", x>>]
Init == /\ prog \in [1..NUnits -> Units] /\ private \in Privates /\ mode = Mode
        /\ (OnlySafe => RaceFree(prog, private) /\ Defined(prog, private))
        /\ owner \in (IF Mode = "loop" THEN [1..NUnits -> T] ELSE {[k \in 1..NUnits |-> 0]})
        /\ pos = [t \in T |-> 1] /\ taker = [k \in 1..NUnits |-> 0] /\ pc = [t \in T |-> <<0, "-">>]
        /\ reg = [t \in T |-> <<>>] /\ mem = Zero
        /\ own = [t \in T |-> [x \in Locs |-> <<"undefined", t>>]] /\ runs = [k \in 1..NUnits |-> 0]
Next == \E t \in T : Move(t)
Spec == Init /\ [][Next]_ompVars /\ \A t \in T : WF_ompVars(Move(t))
SameAsSequential == Over(T) => \A x \in Locs \ private : mem[x] = SeqMem(prog, 1, 1, Zero)[x]
OnceAtMost == \A k \in 1..NUnits : runs[k] <= 1
OnceInTheEnd == Over(T) => \A k \in 1..NUnits : runs[k] = 1
Ends == <>Over(T)
=============================================================================

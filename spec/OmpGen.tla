------------------------------- MODULE OmpGen -------------------------------
(* Schedules for real code: which thread goes on at each scheduling point of a *)
(* region with K units.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxT, MaxK, Extra
VARIABLES n, k, at, sched, done
vars == <<n, k, at, sched, done>>
Init == n = 0 /\ k = 0 /\ at = <<>> /\ sched = <<>> /\ done = FALSE
Start == /\ n = 0 /\ \E a \in 1..MaxT, b \in 1..MaxK : n' = a /\ k' = b /\ at' = [t \in 1..a |-> 0]
         /\ UNCHANGED <<sched, done>>
\* a thread runs on to its next scheduling point
Go == /\ n > 0 /\ \E t \in 1..n : /\ at[t] <= k + Extra
                                  /\ at' = [at EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t - 1)
      /\ UNCHANGED <<n, k, done>>
Finish == /\ n > 0 /\ (\A t \in 1..n : at[t] > k + Extra) /\ ~done /\ done' = TRUE
          /\ PrintT("GEN " \o ToJson([threads |-> n, units |-> k, sched |-> sched])) /\ UNCHANGED <<n, k, at, sched>>
Next == Start \/ Go \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

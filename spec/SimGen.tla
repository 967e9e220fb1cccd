------------------------------- MODULE SimGen -------------------------------
(* Behaviours of Simulation to drive the real run_simulation with: a run and,  *)
(* batch by batch, what the solver asks for and where it ends.                 *)
(* Times inside a batch are quarters of it; states are classes.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS RunKind,     \* "short", "long" or "tiny"
          Starts, Classes, MaxCalls, JacToo
\* <<simulation time, batch, number of batches>>
Runs == CASE RunKind = "short" ->
               {<<"1.0", "1.0", 1>>, <<"300.0", "100.0", 3>>, <<"250.0", "100.0", 3>>, <<"0.3", "0.1", 3>>, <<"10.0", "7.0", 2>>,
                <<"50.0", "100.0", 1>>, <<"7200.0", "1800.0", 4>>, <<"100.5", "100.0", 2>>, <<"0.7", "0.1", 7>>, <<"0.6", "0.2", 3>>,
                <<"200000.0", "50000.0", 4>>, <<"129600.0", "43200.0", 3>>, <<"301.0", "100.0", 4>>, <<"10.1", "10.0", 2>>,
                <<"0.75", "0.25", 3>>, <<"100.125", "33.375", 3>>}
          [] RunKind = "long" ->
               {<<"86400.0", "3600.0", 24>>, <<"3600.0", "100.0", 36>>, <<"172801.0", "7200.0", 25>>, <<"1000.0", "33.0", 31>>}
          [] OTHER -> {<<"1.0", "1.0", 1>>, <<"5.0", "2.0", 3>>}
VARIABLES run, left, calls, script, done
vars == <<run, left, calls, script, done>>
Init == /\ run \in [time : Runs, start : Starts, save : BOOLEAN]
        /\ left = run.time[3] /\ calls = 0 /\ script = <<<<>>>> /\ done = FALSE
Put(e) == script' = [script EXCEPT ![Len(script)] = Append(@, e)]
Rhs == /\ left > 0 /\ calls < MaxCalls
       /\ \E q \in 0..4, c \in Classes : Put([o |-> "rhs", q |-> q, c |-> c])
       /\ calls' = calls + 1 /\ UNCHANGED <<run, left, done>>
Jac == /\ JacToo /\ left > 0 /\ calls < MaxCalls
       /\ \E q \in 0..4, c \in Classes : Put([o |-> "jac", q |-> q, c |-> c])
       /\ calls' = calls + 1 /\ UNCHANGED <<run, left, done>>
End == /\ left > 0 /\ calls > 0
       /\ \E c \in Classes \cup {"neg"} :      \* a solver may undershoot zero slightly
            script' = Append([script EXCEPT ![Len(script)] = Append(@, [o |-> "end", q |-> 4, c |-> c])], <<>>)
       /\ left' = left - 1 /\ calls' = 0 /\ UNCHANGED <<run, done>>
Finish == /\ left = 0 /\ ~done /\ done' = TRUE
          /\ PrintT("GEN " \o ToJson([sim |-> run.time[1], batch |-> run.time[2], start |-> run.start,
                                      save |-> run.save, script |-> SubSeq(script, 1, Len(script) - 1)]))
          /\ UNCHANGED <<run, left, calls, script>>
Next == IF left = 0 THEN Finish ELSE Rhs \/ Jac \/ End
Spec == Init /\ [][Next]_vars
=============================================================================

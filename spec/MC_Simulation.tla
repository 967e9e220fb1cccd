--------------------------- MODULE MC_Simulation ---------------------------
(* Design check: with a solver that follows a (time-dependent) flow, any split *)
(* into batches passes through the same states as the unsplit integration.     *)
EXTENDS Simulation, TLC
CONSTANTS Sims, Batches, Starts, Day
VARIABLES t, cur, evals
vars == <<run, phase, total, state, rows, ends, t, cur, evals>>
\* an arbitrary discrete flow that depends on the time of day
Flow(tod, y) == (3 * y + tod) % 7
RECURSIVE Unsplit(_, _, _)
Unsplit(s, k, y) == IF k = 0 THEN y ELSE Flow((s + k - 1) % Day, Unsplit(s, k - 1, y))
I(x) == FToInt(x)
Init == SimInit /\ t = 0 /\ cur = 0 /\ evals = <<>>
Choose == /\ phase = "idle"
          /\ \E m \in Sims, b \in Batches, s \in Starts, y \in 0..2 :
               Start([sim |-> m, batch |-> b, start |-> s, init |-> y], y)
          /\ UNCHANGED <<t, cur, evals>>
Begin == ~TimeCovered /\ BeginBatch /\ t' = 0 /\ cur' = state /\ UNCHANGED evals
Advance == /\ phase = "inside" /\ t < run.batch
           /\ cur' = Flow(I(TimeOfDay(t)) % Day, cur)
           /\ evals' = Append(evals, I(TimeOfDay(t)))
           /\ t' = t + 1 /\ UNCHANGED simVars
End == t = run.batch /\ EndBatch(run.batch, cur) /\ UNCHANGED <<t, cur, evals>>
Over == phase = "between" /\ Stop /\ UNCHANGED <<t, cur, evals>>
Next == Choose \/ (phase = "between" /\ Begin) \/ Advance \/ (phase = "inside" /\ End) \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneIntegration == phase # "idle" =>
  \A k \in 1..Len(rows) : rows[k] = Unsplit(run.start, k * run.batch, run.init)
TrueTime == \A k \in 1..Len(evals) : evals[k] = run.start + k - 1       \* no gap, no repetition
RowsAreBatches == phase # "idle" => /\ Len(rows) = Len(ends)
                                     /\ \A k \in 1..Len(ends) : I(ends[k]) = k * run.batch
CoversTime == phase = "over" =>
  /\ I(total) >= run.sim /\ I(total) - run.batch < run.sim
  /\ Len(rows) * run.batch = I(total)
Ends == <>(phase = "over")
=============================================================================

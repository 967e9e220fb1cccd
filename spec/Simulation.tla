----------------------------- MODULE Simulation -----------------------------
(* The batched integration.  A run has a requested length and a batch length;  *)
(* every batch integrates from the state the previous one ended in.  What the  *)
(* solver does inside a batch is not restricted: it may evaluate the tendency  *)
(* and the Jacobian at any state and at any moment of the batch, in any order, *)
(* and end in any state.                                                       *)
EXTENDS Float, Integers, Sequences
VARIABLES
  run,      \* [sim, batch, start, init ...], all times in seconds
  phase,    \* "idle", "between", "inside", "over"
  total,    \* simulated time before the current batch
  state,    \* state in which the last batch ended
  rows,     \* states at the ends of the batches
  ends      \* times at the ends of the batches
simVars == <<run, phase, total, state, rows, ends>>

SimInit == run = <<>> /\ phase = "idle" /\ total = "0.0" /\ state = <<>> /\ rows = <<>> /\ ends = <<>>
Start(r, initial) ==
  /\ run' = r /\ phase' = "between" /\ total' = "0.0" /\ state' = initial /\ rows' = <<>> /\ ends' = <<>>

EPS == "1.0E-9"
\* the requested time is covered (up to rounding of the quotient)
TimeCovered == FLe(FMul(run.sim, FSub("1.0", EPS)), total)
BeginBatch == phase = "between" /\ phase' = "inside" /\ UNCHANGED <<run, total, state, rows, ends>>
TimeOfDay(t) == FAdd(FAdd(run.start, total), t)          \* t: time since the batch began
EndBatch(dur, y) ==
  /\ phase = "inside" /\ phase' = "between"
  /\ total' = FAdd(total, dur)
  /\ state' = y
  /\ rows' = Append(rows, y)
  /\ ends' = Append(ends, total')
  /\ UNCHANGED run
Stop == phase = "between" /\ TimeCovered /\ phase' = "over" /\ UNCHANGED <<run, total, state, rows, ends>>
=============================================================================

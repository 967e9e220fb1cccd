------------------------------ MODULE TraceOmp ------------------------------
(* Judges runs of generated parallel code.  Recorded for each run: which       *)
(* thread took or passed which unit, what memory every unit read and wrote,    *)
(* and what the run computed next to the sequential code.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Float
O == INSTANCE Omp WITH prog <- <<>>, private <- {}, mode <- "single", owner <- <<>>, pos <- <<>>, taker <- <<>>, pc <- <<>>,
                       reg <- <<>>, mem <- <<>>, own <- <<>>, runs <- <<>>
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, taker, passed, names
E == Trace[l]
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Name(x) == names[x]

\* units of one phase of one region may run at the same time; conflicts between them are races
JudgeRegion(e) ==
  LET us == e.units
      R == TLCEval([i \in 1..Len(us) |-> SetOf(us[i].r)])
      W == TLCEval([i \in 1..Len(us) |-> SetOf(us[i].w)])
  IN \A i, j \in 1..Len(us) : (i < j /\ us[i].phase = us[j].phase) =>
       Check(O!NoConflict(R[i], W[i], R[j], W[j]), "race",
         e.be \o ": " \o us[i].u \o " and " \o us[j].u \o " (threads " \o ToString(e.threads) \o ") conflict on "
         \o (LET c == (W[i] \cap (R[j] \cup W[j])) \cup (W[j] \cap R[i])
             IN IF c = {} THEN "" ELSE Name(CHOOSE x \in c : TRUE)))
\* Omp's Take and Pass for the recorded claims: nobody takes a unit twice, nobody passes an open one
Key(e) == <<e.be, e.region, e.phase, e.kind, e.no>>
JudgeClaim(e) ==
  IF e.took THEN Check(Key(e) \notin taker, "exactly-once", e.be \o " unit " \o ToString(e.no) \o " taken twice")
  ELSE Check(Key(e) \in taker, "exactly-once", e.be \o " unit " \o ToString(e.no) \o " passed before it was taken")
JudgeResult(e) ==
  IF Len(e.seq) # Len(e.par) THEN Bad("dimension", e.be)
  ELSE \A i \in 1..Len(e.seq) :
    Check(FClose(e.par[i], e.seq[i], "1.0E-9", e.scale), "result",
      e.be \o " with " \o ToString(e.threads) \o " threads: " \o e.what \o "[" \o ToString(i) \o "] is " \o e.par[i]
      \o ", sequentially " \o e.seq[i])
Keep == UNCHANGED <<taker, passed, names>>
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.ev = "begin" -> taker' = {} /\ passed' = {} /\ names' = <<>>
             [] E.ev = "run" -> taker' = {} /\ passed' = {} /\ names' = E.names
             [] E.ev = "claim" -> /\ JudgeClaim(E) /\ UNCHANGED <<passed, names>>
                                  /\ taker' = IF E.took THEN taker \cup {Key(E)} ELSE taker
             [] E.ev = "region" -> JudgeRegion(E) /\ Keep
             [] E.ev = "result" -> JudgeResult(E) /\ Keep
             [] E.ev = "failed" -> Bad("failed", E.what) /\ Keep
             [] OTHER -> Bad("failed", "unknown event " \o E.ev) /\ Keep
Init == l = 1 /\ taker = {} /\ passed = {} /\ names = <<>>
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ Keep
Spec == Init /\ [][Step \/ Finish]_<<l, taker, passed, names>>
=============================================================================

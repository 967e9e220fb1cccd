----------------------------- MODULE TraceRates -----------------------------
(* Judges recorded evaluations of generated rate modules: every reaction's     *)
(* coefficient must be the value its expression has as written.                *)
EXTENDS Rates, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, exprs, env, key
vars == <<l, exprs, env, key>>
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
E == Trace[l]
KeyOf(e) == <<e.T, e.W, e.R, e.tt>>
Judge(e, en) ==
  IF Len(e.out) # Len(exprs)
  THEN Bad("dimension", e.be \o ": " \o ToString(Len(e.out)) \o " rates for " \o ToString(Len(exprs)) \o " reactions")
  ELSE \A k \in 1..Len(exprs) :
         LET x == Val(exprs[k].a, en) IN
         IF Agrees(e.out[k], x) THEN TRUE
         ELSE Bad(IF exprs[k].a.o \in {"var", "J"} THEN "constant" ELSE "rate-value",
                e.be \o " reaction " \o ToString(k) \o " " \o exprs[k].rate \o " at T=" \o e.T \o " H2O=" \o e.W
                \o " RO2=" \o e.R \o " t=" \o e.tt \o " expected " \o x.v \o " got " \o e.out[k])
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ /\ E.ev = "begin" /\ exprs' = <<>> /\ UNCHANGED <<env, key>>
     \/ /\ E.ev = "expr" /\ exprs' = Append(exprs, [rate |-> E.rate, a |-> E.a]) /\ UNCHANGED <<env, key>>
     \/ /\ E.ev = "rates"
        /\ env' = IF KeyOf(E) = key THEN env ELSE Env(E)
        /\ key' = KeyOf(E)
        /\ Judge(E, env') /\ UNCHANGED exprs
     \/ /\ E.ev = "failed" /\ Bad("failed", E.what) /\ UNCHANGED <<exprs, env, key>>
Init == l = 1 /\ exprs = <<>> /\ env = <<>> /\ key = <<>>
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED <<exprs, env, key>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================

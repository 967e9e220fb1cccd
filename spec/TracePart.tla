----------------------------- MODULE TracePart ------------------------------
(* Judges evaluations of the generated partitioning code against Partition.    *)
EXTENDS Partition, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, p
E == Trace[l]
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
Near(x, v, tol) == ~FIsNum(v) \/ ~FIsNum(tol) \/ (FIsNum(x) /\ FLe(FAbs(FSub(x, v)), tol))
RTOL == "1.0E-6"

JudgeEval(e) ==
  IF Len(e.y) # Total(p) \/ Len(e.out) # Total(p) \/ Len(e.size) # p.nb \/ Len(e.aw) # p.nb
  THEN Bad("dimension", "tendencies of length " \o ToString(Len(e.out)) \o ", sizes " \o ToString(Len(e.size)) \o " for " \o ToString(Total(p)))
  ELSE
    LET fl == TLCEval(Flux(p, e.y))
        At(b, i) == e.out[Slot(p, b, i)]
    IN
    \* C12: from the outputs alone
    /\ \A i \in 1..p.nc :
         LET gain == FSum([b \in 1..p.nb |-> At(b, i)])
             scale == FSumAbs([b \in 1..p.nb |-> At(b, i)])
         IN Check(FLe(FAbs(FAdd(e.out[GasSlot(p, i)], gain)), FMul("1.0E-9", FAdd(scale, FAbs(e.out[GasSlot(p, i)]))))
                  \/ ~FIsNum(scale),
                  "conserved", "compound " \o ToString(p.inc[i]) \o " loses " \o FNeg(e.out[GasSlot(p, i)])
                  \o " from the gas and gains " \o gain \o " over all bins")
    /\ \A g \in 0..(p.nsp - 1) : ~Condenses(p, g) =>
         Check(FEq(e.out[g + 1], 0), "untouched", "compound " \o ToString(g) \o " does not condense but changes by " \o e.out[g + 1])
    /\ Check(Near(e.soa, OrganicMass(p, e.y), FMul(RTOL, OrganicScale(p, e.y))), "organic-mass",
             "reported " \o e.soa \o " instead of " \o OrganicMass(p, e.y))
    \* C13: from the state
    /\ \A b \in 1..p.nb :
         /\ Check(Near(e.size[b], Radius(p, e.y, b), FMul(RTOL, Radius(p, e.y, b))), "radius",
                  "bin " \o ToString(b) \o " has radius " \o e.size[b] \o " instead of " \o Radius(p, e.y, b))
         /\ Check(Near(e.aw[b], WaterActivity(p, e.y, b), FMul(RTOL, WaterActivity(p, e.y, b))), "water-activity",
                  "bin " \o ToString(b) \o ": " \o e.aw[b] \o " instead of " \o WaterActivity(p, e.y, b))
         /\ \A i \in 1..p.nc :
              LET f == fl[b][i]
                  g == e.y[GasSlot(p, i)]
              IN /\ Check(Near(At(b, i), f.v, FMul(RTOL, f.s)), "flux",
                          "compound " \o ToString(p.inc[i]) \o ", bin " \o ToString(b) \o ": " \o At(b, i) \o " instead of " \o f.v)
                 \* evaporates below, condenses above the equilibrium of this bin
                 /\ (FIsNum(f.v) /\ FLt(FMul("2.0E-6", f.s), FAbs(f.v))) =>
                      Check(IF FLt(f.eq, g) THEN FLt("0.0", At(b, i)) ELSE FLt(At(b, i), "0.0"), "direction",
                            "compound " \o ToString(p.inc[i]) \o ", bin " \o ToString(b) \o ": gas " \o g \o ", equilibrium " \o f.eq
                            \o ", transfer " \o At(b, i))
    /\ Check(~e.mut, "state-touched", "the step changed its inputs")

Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.ev = "begin" -> p' = <<>>
             [] E.ev = "part" -> p' = E.p
             [] E.ev = "eval" -> JudgeEval(E) /\ UNCHANGED p
             [] E.ev = "failed" -> Bad("failed", E.what) /\ UNCHANGED p
             [] OTHER -> Bad("failed", "unknown event " \o E.ev) /\ UNCHANGED p
Init == l = 1 /\ p = <<>>
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED p
Spec == Init /\ [][Step \/ Finish]_<<l, p>>
=============================================================================

----------------------------- MODULE TracePlot ------------------------------
(* Judges recorded contribution plots: one figure per snapshot, in order.      *)
EXTENDS Plots, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, p, snaps, k
vars == <<l, p, snaps, k>>
E == Trace[l]
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
Judge(e, y) ==
  /\ \A b \in 1..p.nb : Check(BinDrawn(p, y, e.bars, b), "stack", "snapshot " \o ToString(k + 1) \o " bin " \o ToString(b) \o ": shares "
        \o ToString([i \in Organics(p) |-> Share(p, y, b, i)]) \o " drawn as " \o ToString([m \in BarsAt(e.bars, b) |-> e.bars[m]]))
  /\ Check(Elsewhere(p, e.bars) = {}, "stack", "snapshot " \o ToString(k + 1) \o ": bars outside the size bins")
  /\ Check(StatesMass(p, y, e.title), "stated-mass", "snapshot " \o ToString(k + 1) \o ": " \o e.title \o " instead of " \o ShownMass(p, y))
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "begin" -> p' = <<>> /\ snaps' = <<>> /\ k' = 0
       [] E.ev = "snaps" -> p' = E.p /\ snaps' = E.snaps /\ k' = 0
       [] E.ev = "plot" -> /\ IF k + 1 > Len(snaps) THEN Bad("figures", "more figures than snapshots") ELSE Judge(E, snaps[k + 1])
                           /\ k' = k + 1 /\ UNCHANGED <<p, snaps>>
       [] E.ev = "drawn" -> /\ Check(k = Len(snaps), "figures", ToString(k) \o " figures for " \o ToString(Len(snaps)) \o " snapshots")
                            /\ UNCHANGED <<p, snaps, k>>
       [] OTHER -> Bad("failed", E.what) /\ UNCHANGED <<p, snaps, k>>
Init == l = 1 /\ p = <<>> /\ snaps = <<>> /\ k = 0
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED <<p, snaps, k>>
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================

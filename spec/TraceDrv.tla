------------------------------ MODULE TraceDrv ------------------------------
(* Judges recorded runs of the driver scripts: the settings give the set-up    *)
(* (module Driver), the rest is a simulation (module TraceSim).  A run that    *)
(* was refused before the solver started is allowed only where Lifecycle says  *)
(* its files are gone.                                                         *)
EXTENDS TraceSim
D == INSTANCE Driver
SetUp(st) ==
  LET cs == IF st.kind = "yield" THEN TLCEval(D!Att!Compounds(st.lines)) ELSE <<>>
      names == IF st.kind = "yield" THEN [i \in 1..Len(cs) |-> cs[i].n] ELSE order
      p == IF st.kind \in {"aerosol", "yield"} THEN TLCEval(D!Particles(st, names)) ELSE [nsp |-> 0]
  IN [ev |-> "setup", kind |-> st.kind, save |-> st.save, expect |-> <<>>, gone |-> st.gone,
      init |-> IF st.kind = "yield" THEN <<>> ELSE D!Initial(st),
      gas |-> IF st.kind = "yield" THEN TLCEval(D!YieldGas(st, cs)) ELSE <<>>,
      part |-> p, cond |-> IF p.nsp = 0 THEN <<>> ELSE TLCEval(D!Condensed(st, p))]
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], "1.0E-7", 0)
DiffClose(a, b) == IF Len(a) # Len(b) THEN "length " \o ToString(Len(a)) \o " instead of " \o ToString(Len(b))
                   ELSE LET i == CHOOSE i \in 1..Len(a) : ~FClose(a[i], b[i], "1.0E-7", 0)
                        IN "position " \o ToString(i) \o ": " \o a[i] \o " instead of " \o b[i]
DStep ==
  IF l <= Len(Trace) /\ E.ev = "settings" THEN
    /\ l' = l + 1 /\ set' = TLCEval(SetUp(E)) /\ UNCHANGED <<rx, order, num, ast>>
    /\ run' = TLCEval([sim |-> E.sim, batch |-> E.batch, start |-> D!StartTime(E), T |-> E.T, W |-> D!Water(E)])
    /\ phase' = "between" /\ total' = "0.0" /\ state' = <<>> /\ rows' = <<>> /\ ends' = <<>>
  ELSE IF l <= Len(Trace) /\ E.ev = "batch" /\ rows = <<>> THEN
    /\ l' = l + 1
    /\ LET from == TLCEval(InitialState) IN
       Check(Close(E.y0, from), "initial-state", IF Close(E.y0, from) THEN "" ELSE "starts from " \o DiffClose(E.y0, from))
    /\ phase' = "inside" /\ UNCHANGED <<run, total, state, rows, ends>> /\ KeepMech
  ELSE IF l <= Len(Trace) /\ E.ev = "refused" THEN
    /\ l' = l + 1 /\ Check(set.gone, "refused", E.what) /\ Quiet
  ELSE Step
DSpec == Init /\ [][DStep \/ Finish]_tvars
=============================================================================

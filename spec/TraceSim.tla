------------------------------ MODULE TraceSim ------------------------------
(* Judges recorded simulations.  The mechanism is read by Mechanism's action,  *)
(* the batches are Simulation's actions; every tendency and Jacobian handed to *)
(* the solver is compared with the mechanism's kinetic ODE (plus the exchange  *)
(* with the particles) at that state and true time of day.                     *)
EXTENDS Kinetics, Simulation, Json, FiniteSetsExt
R == INSTANCE Rates
P == INSTANCE Partition
Pl == INSTANCE Plots
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, ast, set
tvars == <<rx, order, num, run, phase, total, state, rows, ends, l, ast, set>>
E == Trace[l]
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
RO2Names == LET f == ndJsonDeserialize("ro2.json")[1].names IN {f[i] : i \in 1..Len(f)}

Gas == set.kind # "yield"
HasPart == set.kind \in {"aerosol", "yield"}
Part == [set.part EXCEPT !.psat = [i \in 1..set.part.nc |->
           IF i = set.part.nc THEN P!WaterPsat(run.T) ELSE set.part.psat[i]]]
Size == IF HasPart THEN P!Total(set.part) ELSE NumSpecies

\* ---- the state a simulation starts from ----
Ppb == "2.55E+10"
Given(s) == {i \in 1..Len(set.init) : set.init[i][1] = s}
InitGas(s) == IF Given(s) = {} THEN "0.0"
              ELSE FMul(set.init[CHOOSE i \in Given(s) : TRUE][2], Ppb)
WaterGas == IF Given("H2O") = {} THEN "0.0" ELSE set.init[CHOOSE i \in Given("H2O") : TRUE][2]
InitialState ==
  CASE set.kind = "yield" -> set.gas \o set.cond
    [] set.kind = "aerosol" -> [i \in 1..NumSpecies |-> InitGas(order[i])] \o <<WaterGas>> \o set.cond
    [] OTHER -> [i \in 1..NumSpecies |-> InitGas(order[i])]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], "1.0E-12", 0)
Diff(a, b) == IF Len(a) # Len(b) THEN "length " \o ToString(Len(a)) \o " instead of " \o ToString(Len(b))
              ELSE LET i == CHOOSE i \in 1..Len(a) : ~FClose(a[i], b[i], "1.0E-12", 0)
                   IN "position " \o ToString(i) \o ": " \o a[i] \o " instead of " \o b[i]

\* ---- kinetics at a state and time ----
EnvAt(t, y) == TLCEval(R!Env([T |-> run.T, W |-> run.W, tt |-> TimeOfDay(t),
                 R |-> FSum([i \in 1..Len(order) |-> IF order[i] \in RO2Names THEN y[i] ELSE "0.0"])]))
Coefs(t, y) == LET env == EnvAt(t, y) IN TLCEval([k \in 1..Len(rx) |-> R!Val(ast[k], env)])
Products(y) == TLCEval([k \in 1..Len(rx) |-> RateProduct(k, y)])
Slack(q) == FAdd(FMul("4.0", q.e), FMul("1.0E-6", FAbs(q.v)))
KinV(s, ks, q, pr) == IF s \in Background THEN "0.0"
  ELSE FSum([i \in 1..Len(ks) |-> FMul(C(Net(ks[i], s)), FMul(q[ks[i]].v, pr[ks[i]]))])
KinT(s, ks, q, pr) == IF s \in Background THEN "0.0"
  ELSE FSumAbs([i \in 1..Len(ks) |-> FMul(C(Gain(ks[i], s) + Loss(ks[i], s)), FMul(Slack(q[ks[i]]), pr[ks[i]]))])
Near(x, v, tol) == ~FIsNum(tol) \/ (FIsNum(x) /\ FLe(FAbs(FSub(x, v)), FAdd(tol, FMul("1.0E-9", FAbs(v)))))

JudgeRhs(e) ==
  IF phase # "inside" THEN Bad("outside", "tendency asked for outside a batch")
  ELSE IF Len(e.y) # Size \/ Len(e.out) # Size
  THEN Bad("dimension", "tendency of length " \o ToString(Len(e.out)) \o " for a state of length " \o ToString(Len(e.y)))
  ELSE LET q == IF Gas THEN Coefs(e.t, e.y) ELSE <<>>
           pr == IF Gas THEN Products(e.y) ELSE <<>>
           p == IF HasPart THEN TLCEval(Part) ELSE [nsp |-> 0]
           fl == IF HasPart THEN TLCEval(P!Flux(p, e.y)) ELSE <<>>
       IN /\ Check(~e.mut, "state-touched", "evaluating the tendency changed the solver's state")
          /\ \A i \in 1..Size :
               LET kin == Gas /\ i <= NumSpecies
                   ks == IF kin THEN Involving(order[i]) ELSE <<>>
                   v == FAdd(IF kin THEN KinV(order[i], ks, q, pr) ELSE "0.0",
                             IF HasPart THEN P!Exchange(p, fl, i) ELSE "0.0")
                   tol == FAdd(IF kin THEN KinT(order[i], ks, q, pr) ELSE "0.0",
                               IF HasPart THEN FMul("1.0E-5", P!ExchangeScale(p, fl, i)) ELSE "0.0")
               IN Check(Near(e.out[i], v, tol), IF kin THEN "rhs" ELSE "rhs-particle",
                    "slot " \o ToString(i) \o (IF kin THEN " (" \o order[i] \o ")" ELSE "") \o " at t=" \o e.t
                    \o " of batch " \o ToString(Len(rows) + 1) \o " expected " \o v \o " got " \o e.out[i])

JudgeJac(e) ==
  IF phase # "inside" THEN Bad("outside", "Jacobian asked for outside a batch")
  ELSE IF Len(e.y) # Size \/ Len(e.rows) # Size THEN Bad("dimension", "Jacobian of " \o ToString(Len(e.rows)) \o " rows")
  ELSE LET q == Coefs(e.t, e.y)
           d == TLCEval([k \in 1..Len(rx) |-> [j \in DOMAIN rx[k].loss |-> DRateProduct(k, e.y, j)]])
       IN \A i \in 1..Size :
        LET s == order[i]
            ks == Involving(s)
            row == e.rows[i]
            obs == [c \in {row[m][1] : m \in 1..Len(row)} |-> row[CHOOSE m \in 1..Len(row) : row[m][1] = c][2]]
            D(m, j) == IF j \in DOMAIN rx[ks[m]].loss THEN d[ks[m]][j] ELSE "0.0"
            V(j) == IF s \in Background THEN "0.0"
                    ELSE FSum([m \in 1..Len(ks) |-> FMul(C(Net(ks[m], s)), FMul(q[ks[m]].v, D(m, j)))])
            T(j) == FSumAbs([m \in 1..Len(ks) |-> FMul(C(Gain(ks[m], s) + Loss(ks[m], s)), FMul(Slack(q[ks[m]]), D(m, j)))])
        IN \A c \in {num[j] : j \in Coupled(s, ks)} \cup DOMAIN obs :
             LET j == order[c + 1]
                 o == IF c \in DOMAIN obs THEN obs[c] ELSE "0.0"
             IN Check(Near(o, V(j), T(j)), "jac",
                  "d(" \o s \o ")/d(" \o j \o ") at t=" \o e.t \o " of batch " \o ToString(Len(rows) + 1)
                  \o " expected " \o V(j) \o " got " \o o)

\* ---- outputs ----
SameRows(m) == Len(m) = Len(rows) /\ \A k \in 1..Len(rows) : Same(m[k], rows[k])
RowsDiff(m) == IF Len(m) # Len(rows) THEN ToString(Len(m)) \o " rows for " \o ToString(Len(rows)) \o " batches"
               ELSE LET k == CHOOSE k \in 1..Len(rows) : ~Same(m[k], rows[k]) IN "row " \o ToString(k) \o " " \o Diff(m[k], rows[k])
SameTimes(t) == Len(t) = Len(ends) /\ \A k \in 1..Len(t) : FClose(t[k], ends[k], "1.0E-9", 0)
Column(m, j) == [k \in 1..Len(m) |-> m[k][j]]
\* ---- figures ----
JudgeContribution(e) ==
  IF e.f > Len(rows) THEN Bad("figures", "more figures than batches")
  ELSE IF Len(rows[e.f]) # Size THEN Bad("dimension", "figure of a state of length " \o ToString(Len(rows[e.f])))
  ELSE LET p == TLCEval(Part) y == rows[e.f] IN
       /\ \A b \in 1..p.nb : Check(Pl!BinDrawn(p, y, e.bars, b), "stack", "figure " \o ToString(e.f) \o " bin " \o ToString(b))
       /\ Check(Pl!Elsewhere(p, e.bars) = {}, "stack", "figure " \o ToString(e.f) \o ": bars outside the size bins")
       /\ Check(Pl!StatesMass(p, y, e.title), "stated-mass", "figure " \o ToString(e.f) \o ": " \o e.title \o " instead of " \o Pl!ShownMass(p, y))
JudgeCurve(c) ==
  /\ Check(SameTimes(c.x), "curve", c.label \o " drawn at " \o ToString(c.x) \o " instead of " \o ToString(ends))
  /\ IF Len(c.y) # Len(rows) THEN Bad("curve", c.label \o ": " \o ToString(Len(c.y)) \o " points")
     ELSE IF HasPart
     THEN LET p == TLCEval(Part) IN \A k \in 1..Len(rows) :
            IF Len(rows[k]) # Size THEN Bad("dimension", "figure of a state of length " \o ToString(Len(rows[k])))
            ELSE Check(FClose(c.y[k], P!OrganicMass(p, rows[k]), "1.0E-6", P!OrganicScale(p, rows[k])), "curve",
                       "organic mass drawn for batch " \o ToString(k) \o ": " \o c.y[k] \o " instead of " \o P!OrganicMass(p, rows[k]))
     ELSE IF c.label \notin Species THEN Bad("curve", "labelled " \o c.label)
     ELSE \A k \in 1..Len(rows) : Check(Pl!LogPoint(c.y[k], rows[k][num[c.label] + 1]), "curve",
            c.label \o " drawn for batch " \o ToString(k) \o ": " \o c.y[k] \o " where there is " \o rows[k][num[c.label] + 1])
JudgeOutput(e) ==
  CASE e.what \in {"matrix", "returned-matrix", "csv", "pickle"} ->
         /\ Check(SameRows(e.rows), "rows", e.what \o ": " \o RowsDiff(e.rows))
         /\ (e.what = "csv" => Check(e.index = [k \in 1..Len(rows) |-> ToString(k - 1)] /\
                                     e.columns = [i \in 1..Size |-> ToString(i - 1)], "labels",
                                     "rows or columns of the table are labelled wrongly"))
    [] e.what \in {"returned-times", "times", "plotted"} ->
         Check(SameTimes(e.t), "times", e.what \o " " \o ToString(e.t) \o " instead of " \o ToString(ends))
    [] e.what = "names" ->
         Check({<<e.pairs[i][1], e.pairs[i][2]>> : i \in 1..Len(e.pairs)} = {<<s, ToString(num[s])>> : s \in Species}
               /\ Len(e.pairs) = NumSpecies, "labels", "column names " \o ToString(e.pairs))
    [] e.what = "soa" ->
         LET p == Part IN
         /\ Check(Len(e.rows) = Len(rows), "rows", ToString(Len(e.rows)) \o " organic masses")
         /\ \A k \in 1..Len(e.rows) : k <= Len(rows) =>
              IF Len(rows[k]) # Size \/ e.rows[k] = <<>> THEN Bad("dimension", "organic mass of a state of length " \o ToString(Len(rows[k])))
              ELSE Check(FClose(e.rows[k][1], P!OrganicMass(p, rows[k]), "1.0E-6", P!OrganicScale(p, rows[k])), "aerosol-row",
                    "organic mass of batch " \o ToString(k) \o ": " \o e.rows[k][1] \o " instead of " \o P!OrganicMass(p, rows[k]))
    [] e.what = "sizes" ->
         LET p == Part IN
         /\ Check(Len(e.rows) = Len(rows), "rows", ToString(Len(e.rows)) \o " size rows")
         /\ \A k \in 1..Len(e.rows) : \A b \in 1..p.nb : k <= Len(rows) =>
              IF Len(rows[k]) # Size THEN Bad("dimension", "sizes of a state of length " \o ToString(Len(rows[k])))
              ELSE Check(b <= Len(e.rows[k]) /\ FClose(e.rows[k][b], P!Radius(p, rows[k], b), "1.0E-5", 0), "aerosol-row",
                    "size of bin " \o ToString(b) \o " in batch " \o ToString(k))
    \* figures shown to the user: f is the figure's number, of n
    [] e.what = "figures" ->
         Check(CASE set.kind = "yield" -> e.n = Len(rows) [] set.kind = "aerosol" -> e.asked => e.n > 0
                 [] e.asked -> e.n > 0 [] OTHER -> TRUE, "figures", ToString(e.n) \o " figures for " \o ToString(Len(rows)) \o " batches")
    [] e.what = "figure" ->
         IF set.kind = "yield" THEN JudgeContribution(e)
         ELSE /\ Check(Len(e.lines) > 0, "curve", "a figure without a curve")
              /\ \A i \in 1..Len(e.lines) : JudgeCurve(e.lines[i])
    [] e.what = "include" -> Check(e.index = set.part.inc, "labels", "saved include index " \o ToString(e.index))
    [] e.what = "files" ->
         IF set.save THEN Check({set.expect[i] : i \in 1..Len(set.expect)} \subseteq {e.files[i] : i \in 1..Len(e.files)},
                                "missing-output", "written: " \o ToString(e.files))
         ELSE Check(e.files = <<>>, "unasked-output", "written without being asked: " \o ToString(e.files))
    [] OTHER -> Bad("failed", "unknown output " \o e.what)

Quiet == UNCHANGED <<rx, order, num, ast, set, run, phase, total, state, rows, ends>>
KeepMech == UNCHANGED <<rx, order, num, ast, set>>
KeepSim == UNCHANGED simVars
\* an event the specification does not allow here is reported and the trace goes on
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.ev = "begin" -> /\ rx' = <<>> /\ order' = <<>> /\ num' = EmptyFcn /\ ast' = <<>> /\ set' = <<>>
                            /\ run' = <<>> /\ phase' = "idle" /\ total' = "0.0" /\ state' = <<>>
                            /\ rows' = <<>> /\ ends' = <<>>
       [] E.ev = "reaction" -> /\ ReadReaction(E) /\ ast' = Append(ast, E.a) /\ UNCHANGED set /\ KeepSim
       [] E.ev = "setup" -> /\ set' = E /\ UNCHANGED <<rx, order, num, ast>>
                            /\ run' = [sim |-> E.sim, batch |-> E.batch, start |-> E.start, T |-> E.T, W |-> E.W]
                            /\ phase' = "between" /\ total' = "0.0" /\ state' = <<>> /\ rows' = <<>> /\ ends' = <<>>
       [] E.ev = "batch" ->
            LET from == IF rows = <<>> THEN InitialState ELSE state IN
            /\ Check(Same(E.y0, from), IF rows = <<>> THEN "initial-state" ELSE "continuity",
                     IF Same(E.y0, from) THEN "" ELSE "batch " \o ToString(Len(rows) + 1) \o " starts from " \o Diff(E.y0, from))
            /\ Check(~TimeCovered, "coverage", "batch " \o ToString(Len(rows) + 1) \o " begins after the simulation time is over")
            /\ phase' = "inside" /\ UNCHANGED <<run, total, state, rows, ends>> /\ KeepMech
       [] E.ev = "rhs" -> JudgeRhs(E) /\ Quiet
       [] E.ev = "jac" -> JudgeJac(E) /\ Quiet
       [] E.ev = "end" -> EndBatch(E.dur, E.y) /\ KeepMech
       [] E.ev = "over" -> /\ Check(TimeCovered, "coverage", "stopped after " \o total \o " s of " \o run.sim \o " s")
                           /\ phase' = "over" /\ UNCHANGED <<run, total, state, rows, ends>> /\ KeepMech
       [] E.ev = "output" -> JudgeOutput(E) /\ Quiet
       [] E.ev = "failed" -> Bad("failed", E.what) /\ Quiet
       [] OTHER -> Bad("failed", "unknown event " \o E.ev) /\ Quiet
Init == MechInit /\ SimInit /\ l = 1 /\ ast = <<>> /\ set = <<>>
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ Quiet
Spec == Init /\ [][Step \/ Finish]_tvars
=============================================================================

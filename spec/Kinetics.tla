------------------------------ MODULE Kinetics ------------------------------
(* Mass-action kinetics of a mechanism that has been read: reactant products,  *)
(* tendencies and their exact derivatives.  Everything is evaluated in Float,  *)
(* where small integers are exact, so the same definitions serve exhaustive    *)
(* checking on integers (MC_Kinetics) and judging recorded executions.         *)
EXTENDS Mechanism, Float, SequencesExt

Unit == 3000000        \* a coefficient is an integer number of thirds of a millionth
C(h) == FRat(h, Unit)
Loss(k, s) == IF s \in DOMAIN rx[k].loss THEN rx[k].loss[s] ELSE 0
Gain(k, s) == IF s \in DOMAIN rx[k].gain THEN rx[k].gain[s] ELSE 0
Net(k, s) == Gain(k, s) - Loss(k, s)                  \* in units of 1/Unit
At(y, s) == y[num[s] + 1]

\* product of reactant concentrations, each to its total coefficient
RateProduct(k, y) ==
  LET ss == SetToSeq(DOMAIN rx[k].loss)
  IN FProd([i \in 1..Len(ss) |-> FPow(At(y, ss[i]), C(rx[k].loss[ss[i]]))])

\* its partial derivative with respect to species j
DRateProduct(k, y, j) ==
  IF j \notin DOMAIN rx[k].loss THEN "0.0"
  ELSE LET ss == SetToSeq(DOMAIN rx[k].loss)
       IN FProd([i \in 1..Len(ss) |->
            IF ss[i] = j
            THEN FMul(C(rx[k].loss[j]), FPow(At(y, j), C(rx[k].loss[j] - Unit)))
            ELSE FPow(At(y, ss[i]), C(rx[k].loss[ss[i]]))])

Involving(s) == SetToSeq({k \in 1..Len(rx) : s \in DOMAIN rx[k].loss \cup DOMAIN rx[k].gain})

\* terms of the tendency of s for reaction rates r; their sum is the tendency
TendencyTerms(s, r, ks) ==
  IF s \in Background THEN <<>>
  ELSE [i \in 1..Len(ks) |-> FMul(C(Net(ks[i], s)), r[ks[i]])]
Tendency(s, r) == FSum(TendencyTerms(s, r, Involving(s)))
\* magnitude against which rounding is judged: gain and loss separately
TendencyScale(s, r, ks) ==
  FSumAbs([i \in 1..Len(ks) |-> FMul(C(Gain(ks[i], s) + Loss(ks[i], s)), r[ks[i]])])

\* d tendency(s) / d y(j) at fixed rate coefficients q
JacTerms(s, j, y, q, ks) ==
  IF s \in Background THEN <<>>
  ELSE [i \in 1..Len(ks) |-> FMul(FMul(C(Net(ks[i], s)), q[ks[i]]), DRateProduct(ks[i], y, j))]
Jac(s, j, y, q) == FSum(JacTerms(s, j, y, q, Involving(s)))
JacScale(s, j, y, q, ks) ==
  FSumAbs([i \in 1..Len(ks) |-> FMul(FMul(C(Gain(ks[i], s) + Loss(ks[i], s)), q[ks[i]]),
                                      DRateProduct(ks[i], y, j))])
\* species whose concentration can matter for s
Coupled(s, ks) == UNION {DOMAIN rx[ks[i]].loss : i \in 1..Len(ks)}

RatesAt(y, q) == [k \in 1..Len(rx) |-> FMul(q[k], RateProduct(k, y))]
=============================================================================

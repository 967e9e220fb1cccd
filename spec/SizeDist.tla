----------------------------- MODULE SizeDist ------------------------------
(* The initial particle population: n bins between lo and hi micrometres,      *)
(* total particles per cc in a log-normal distribution with median M and       *)
(* geometric standard deviation s.                                             *)
EXTENDS Float, Integers, Sequences
\* bin sizes are evenly spaced in the logarithm; one bin alone sits at the lower bound
Size(d, b) == IF d.n = 1 THEN FLit(d.lo)
              ELSE FExp(FAdd(FLog(d.lo), FMul(FDiv(FRat(b - 1, 1), FRat(d.n - 1, 1)), FSub(FLog(d.hi), FLog(d.lo)))))
\* logarithm of the log-normal density at x, without the factors all bins share
LogDensity(d, x) == LET z == FDiv(FSub(FLog(x), FLog(d.M)), FLog(d.s))
                    IN FSub(FMul("-0.5", FMul(z, z)), FLog(x))
RECURSIVE MaxOf(_)
MaxOf(q) == IF Len(q) = 1 THEN q[1] ELSE FMax(q[1], MaxOf(Tail(q)))
Sizes(d) == [b \in 1..d.n |-> Size(d, b)]
Weights(d) == LET g == [b \in 1..d.n |-> LogDensity(d, Size(d, b))]
                  m == MaxOf(g)
              IN [b \in 1..d.n |-> FExp(FSub(g[b], m))]
Numbers(d) == LET w == Weights(d)
                  s == FSum(w)
              IN [b \in 1..d.n |-> FMul(d.total, FDiv(w[b], s))]
=============================================================================

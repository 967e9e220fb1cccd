------------------------------ MODULE Approx -------------------------------
(* Numbers that know how far a faithful implementation may be off: a value     *)
(* and a bound on the error that single-precision literals (the Fortran code   *)
(* has them) can cause.  l says that the number is made of literals only, so   *)
(* that Fortran computes with it in single precision.                          *)
EXTENDS Float
SNGL == "1.2E-7"       \* two single-precision half units
DBL == "1.0E-14"
Rel(v, r) == FMul(FAbs(v), r)
Num(v, e, l) == [v |-> v, e |-> e, l |-> l]
Lit(t) == LET v == FLit(t) IN Num(v, Rel(v, SNGL), TRUE)
In(x) == LET v == FLit(x) IN Num(v, Rel(v, DBL), FALSE)     \* a double-precision input
Rnd(a, b) == IF a.l /\ b.l THEN SNGL ELSE DBL
Add(a, b) == LET v == FAdd(a.v, b.v) IN
  Num(v, FAdd(FAdd(a.e, b.e), Rel(v, Rnd(a, b))), a.l /\ b.l)
Sub(a, b) == LET v == FSub(a.v, b.v) IN
  Num(v, FAdd(FAdd(a.e, b.e), Rel(v, Rnd(a, b))), a.l /\ b.l)
Neg(a) == Num(FNeg(a.v), a.e, a.l)
Mul(a, b) == LET v == FMul(a.v, b.v) IN
  Num(v, FAdd(FAdd(Rel(a.v, b.e), Rel(b.v, a.e)), Rel(v, Rnd(a, b))), a.l /\ b.l)
Div(a, b) == LET v == FDiv(a.v, b.v) IN
  Num(v, IF FLe(FAbs(b.v), b.e) THEN "inf"
         ELSE FAdd(FDiv(FAdd(a.e, Rel(v, b.e)), FAbs(b.v)), Rel(v, Rnd(a, b))), a.l /\ b.l)
Pow(a, b) == LET v == FPow(a.v, b.v) IN
  Num(v, IF FEq(v, 0) /\ FEq(a.e, 0) THEN "0.0"
         ELSE IF FLe(a.v, a.e) THEN "inf"
         ELSE FMul(FAbs(v), FAdd(FAdd(FDiv(FMul(FAbs(b.v), a.e), a.v), FMul(FAbs(FLog(a.v)), b.e)), Rnd(a, b))),
      a.l /\ b.l)
Exp(a) == LET v == FExp(a.v) IN
  Num(v, IF FLt("1.0", a.e) /\ ~FEq(v, 0) THEN "inf" ELSE FMul(v, FAdd(FMul("2.0", a.e), Rnd(a, a))), a.l)
Log(a) == LET v == FLog(a.v) IN
  Num(v, IF FLe(a.v, a.e) THEN "inf" ELSE FAdd(FDiv(a.e, a.v), Rel(v, Rnd(a, a))), a.l)
Log10(a) == LET v == FLog10(a.v) IN
  Num(v, IF FLe(a.v, a.e) THEN "inf" ELSE FAdd(FDiv(a.e, a.v), Rel(v, Rnd(a, a))), a.l)
Sqrt(a) == LET v == FSqrt(a.v) IN
  Num(v, IF FEq(a.v, 0) THEN "0.0" ELSE FAdd(FDiv(a.e, v), Rel(v, Rnd(a, a))), a.l)
Abs(a) == Num(FAbs(a.v), a.e, a.l)
Sin(a) == Num(FSin(a.v), FAdd(a.e, Rnd(a, a)), a.l)
Cos(a) == Num(FCos(a.v), FAdd(a.e, Rnd(a, a)), a.l)

\* a computed value x is a correct evaluation of a
Agrees(x, a) ==
  \/ ~FIsNum(a.v) \/ ~FIsNum(a.e)            \* no value as written / error unbounded
  \/ /\ FIsNum(x)
     /\ FLe(FAbs(FSub(x, a.v)), FAdd(FAdd(FMul("4.0", a.e), Rel(a.v, "1.0E-10")), "1.0E-290"))
\* the comparison is worth something
Sharp(a) == FIsNum(a.v) /\ FIsNum(a.e) /\ FLe(a.e, FAdd(Rel(a.v, "1.0E-3"), "1.0E-290"))
=============================================================================

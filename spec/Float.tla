------------------------------- MODULE Float -------------------------------
(* IEEE double arithmetic for TLC.  A number is a string ("2.5", "1.0E-12")   *)
(* or a TLA+ integer; results are strings.  TLC evaluates these operators by  *)
(* the Java overrides in Float.java; the definitions below only give arities. *)
EXTENDS Integers, Sequences
FAdd(a, b) == CHOOSE x \in {} : TRUE
FSub(a, b) == CHOOSE x \in {} : TRUE
FMul(a, b) == CHOOSE x \in {} : TRUE
FDiv(a, b) == CHOOSE x \in {} : TRUE
FPow(a, b) == CHOOSE x \in {} : TRUE
FNeg(a) == CHOOSE x \in {} : TRUE
FExp(a) == CHOOSE x \in {} : TRUE
FLog(a) == CHOOSE x \in {} : TRUE
FLog10(a) == CHOOSE x \in {} : TRUE
FSqrt(a) == CHOOSE x \in {} : TRUE
FAbs(a) == CHOOSE x \in {} : TRUE
FSin(a) == CHOOSE x \in {} : TRUE
FCos(a) == CHOOSE x \in {} : TRUE
FFloor(a) == CHOOSE x \in {} : TRUE
FCeil(a) == CHOOSE x \in {} : TRUE
FMax(a, b) == CHOOSE x \in {} : TRUE
FRat(n, m) == CHOOSE x \in {} : TRUE          \* n / m
FLit(a) == CHOOSE x \in {} : TRUE             \* normal form of a literal
FSingle(a) == CHOOSE x \in {} : TRUE          \* rounded to single precision
FToInt(a) == CHOOSE x \in {} : TRUE           \* nearest TLA+ integer
FIsNum(a) == CHOOSE x \in {} : TRUE           \* finite
FLt(a, b) == CHOOSE x \in {} : TRUE
FLe(a, b) == CHOOSE x \in {} : TRUE
FEq(a, b) == CHOOSE x \in {} : TRUE
FClose(a, b, rtol, scale) == CHOOSE x \in {} : TRUE   \* |a-b| <= rtol*max(|a|,|b|,|scale|)
FSum(s) == CHOOSE x \in {} : TRUE
FSumAbs(s) == CHOOSE x \in {} : TRUE
FProd(s) == CHOOSE x \in {} : TRUE
=============================================================================

------------------------------ MODULE SizeGen ------------------------------
(* Populations to ask for, and what the specification promises about them.     *)
EXTENDS SizeDist, TLC, Json
CONSTANTS Ns, Totals, Medians, Widths, Los, Ratios
VARIABLES d, N, x, done
vars == <<d, N, x, done>>
Init == /\ d \in [n : Ns, total : Totals, M : Medians, s : Widths, lo : Los, hi : Ratios]
        /\ N = <<>> /\ x = <<>> /\ done = FALSE
\* some bin lies where double precision still has a density to speak of
HasRoom(e) == FLt("-600.0", MaxOf([b \in 1..e.n |-> LogDensity(e, Size(e, b))]))
Ask == /\ ~done /\ done' = TRUE
       /\ d' = [d EXCEPT !.hi = FMul(d.lo, d.hi)]
       /\ HasRoom(d') = TRUE
       /\ x' = TLCEval(Sizes(d')) /\ N' = TLCEval(Numbers(d'))
       /\ PrintT("GEN " \o ToJson(d'))
Spec == Init /\ [][Ask]_vars
OnePerBin == done => Len(N) = d.n /\ Len(x) = d.n
TotalKept == done => FClose(FSum(N), d.total, "1.0E-12", d.total)
NonNegative == done => \A b \in 1..d.n : FLe("0.0", N[b])
Increasing == done => \A b \in 1..(d.n - 1) : FLt(x[b], x[b + 1])
InRange == done => FClose(x[1], d.lo, "1.0E-12", 0) /\ (d.n > 1 => FClose(x[d.n], d.hi, "1.0E-12", 0))
EvenInLog == done => \A b \in 2..(d.n - 1) : FClose(FMul(x[b], x[b]), FMul(x[b - 1], x[b + 1]), "1.0E-12", 0)
\* numbers rise up to the mode and fall after it
Mode == FMul(d.M, FExp(FNeg(FMul(FLog(d.s), FLog(d.s)))))
OneMode == done => \A b \in 1..(d.n - 1) :
   /\ (FLe(x[b + 1], Mode) => FLe(N[b], N[b + 1]))
   /\ (FLe(Mode, x[b]) => FLe(N[b + 1], N[b]))
=============================================================================

---------------------------- MODULE MC_Kinetics -----------------------------
(* Exhaustive small scope: every mechanism of up to MaxRx reactions over a few *)
(* species, coefficients and term patterns, and every small integer state.     *)
EXTENDS Kinetics
CONSTANTS Names, Coefs, MaxRx, MaxTerms, ProbeVals

Term == [c : Coefs, n : Names]
TermSeqs == UNION {[1..m -> Term] : m \in 0..MaxTerms}
Lhs == {t \in TermSeqs : Len(Named(t)) > 0}
Init == MechInit
Next == /\ Len(rx) < MaxRx
        /\ \E l \in Lhs, p \in TermSeqs : ReadReaction([lhs |-> l, rhs |-> p, rate |-> "K"])
Spec == Init /\ [][Next]_mechVars

Probes == [1..Len(order) -> ProbeVals]
Ones == [k \in 1..Len(rx) |-> k]
Bump(y, s, d) == [y EXCEPT ![num[s] + 1] = @ + d]
MaxOrder(s) == \A k \in 1..Len(rx) : Loss(k, s) <= 2 * Unit /\ Loss(k, s) % Unit = 0

\* C05 on the design: the Jacobian is the derivative of the tendency
\* (a central difference is exact for polynomials of degree two)
JacIsDerivative ==
  \A y \in Probes : \A s, j \in Species :
    MaxOrder(j) =>
      FEq(Jac(s, j, y, Ones),
          FDiv(FSub(Tendency(s, RatesAt(Bump(y, j, 1), Ones)),
                    Tendency(s, RatesAt(Bump(y, j, -1), Ones))), 2))
\* C04 on the design: what every reaction conserves, the tendency conserves
Weights == [Species -> {1, 2}]
Conserved(w) == \A k \in 1..Len(rx) :
    LET ss == SetToSeq(Species)
    IN FEq(FSum([i \in 1..Len(ss) |-> FMul(w[ss[i]], Net(k, ss[i]))]), 0)
Conservation ==
  (Species \cap Background = {}) =>
   \A w \in Weights : Conserved(w) =>
    \A y \in Probes :
     LET ss == SetToSeq(Species)
     IN FEq(FSum([i \in 1..Len(ss) |-> FMul(w[ss[i]], Tendency(ss[i], RatesAt(y, Ones)))]), 0)
BackgroundInert ==
  \A y \in Probes : \A s \in Species \cap Background :
     FEq(Tendency(s, RatesAt(y, Ones)), 0) /\ \A j \in Species : FEq(Jac(s, j, y, Ones), 0)
Uncoupled ==
  \A y \in Probes : \A s, j \in Species :
     j \notin Coupled(s, Involving(s)) => FEq(Jac(s, j, y, Ones), 0)
=============================================================================

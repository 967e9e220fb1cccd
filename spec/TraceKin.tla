------------------------------ MODULE TraceKin ------------------------------
(* Judges executions of the mechanism pipeline against Mechanism and Kinetics. *)
(* The trace is a list of cases; each case replays the reactions of one file   *)
(* through the specification's own action ReadReaction and compares, after any *)
(* number of them, what the real code returned or computed.  The verdict is    *)
(* total: a mismatch prints a named clause and the trace goes on.              *)
EXTENDS Kinetics, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
tvars == <<rx, order, num, l>>

RTOL == "1.0E-6"
\* Python computes in double precision; Fortran reads literals in single
\* precision, also those that are exponents (the order, or the order minus one)
Base(be) == IF be = "numba" THEN "1.0E-9" ELSE "4.0E-7"
Blur(k, y) ==
  LET ss == SetToSeq({s \in DOMAIN rx[k].loss : rx[k].loss[s] % Unit # 0})
  IN FSum([i \in 1..Len(ss) |-> IF FLt("0.0", At(y, ss[i]))
             THEN FMul("1.0E-7", FMul(C(rx[k].loss[ss[i]] + Unit), FAbs(FLog(At(y, ss[i]))))) ELSE "0.0"])
RECURSIVE FMaxSeq(_)
FMaxSeq(xs) == IF xs = <<>> THEN "0.0" ELSE FMax(Head(xs), FMaxSeq(Tail(xs)))
Tol(be, y, ks) == IF be = "numba" THEN Base(be) ELSE FAdd(Base(be), FMaxSeq([i \in 1..Len(ks) |-> Blur(ks[i], y)]))
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
E == Trace[l]

\* ---- C01 / C02: what extract_mechanism returned ----
PairsOf(ps) == {ps[i][1] : i \in 1..Len(ps)}
\* the observed coefficient list is exactly the specified map
SameCoefs(ps, m) ==
  /\ PairsOf(ps) = DOMAIN m
  /\ Len(ps) = Cardinality(DOMAIN m)
  /\ \A i \in 1..Len(ps) : FClose(ps[i][2], C(m[ps[i][1]]), "1.0E-12", 0)
JudgeParse(e) ==
  /\ Check(e.n = Len(rx) /\ Len(e.rx) = Len(rx), "count",
           "the file has " \o ToString(Len(rx)) \o " reactions, parsed " \o ToString(e.n))
  /\ \A k \in 1..Len(rx) :
       IF k > Len(e.rx) THEN TRUE
       ELSE LET o == e.rx[k] IN
         /\ Check(SameCoefs(o.loss, rx[k].loss), "reactants",
                  "reaction " \o ToString(k) \o " expected " \o ToString(rx[k].loss) \o " got " \o ToString(o.loss))
         /\ Check(SameCoefs(o.gain, rx[k].gain), "products",
                  "reaction " \o ToString(k) \o " expected " \o ToString(rx[k].gain) \o " got " \o ToString(o.gain))
         /\ Check({o.reac[i] : i \in 1..Len(o.reac)} = DOMAIN rx[k].loss, "reactant-list",
                  "reaction " \o ToString(k) \o " got " \o ToString(o.reac))
         /\ Check(o.rate = rx[k].rate, "rate-text",
                  "reaction " \o ToString(k) \o " expected " \o rx[k].rate \o " got " \o o.rate)
  /\ Check(e.order = order, "numbering",
           "expected " \o ToString(order) \o " got " \o ToString(e.order))
  /\ Check(/\ PairsOf(e.num) = Species
           /\ \A i \in 1..Len(e.num) : e.num[i][1] \in Species => e.num[i][2] = num[e.num[i][1]],
           "inverse-numbering", "got " \o ToString(e.num))

\* ---- C03 ----
JudgeReactants(e) ==
  IF Len(e.y) # NumSpecies \/ Len(e.out) # Len(rx)
  THEN Bad("dimension", e.be \o " reactant products of " \o ToString(Len(e.out)) \o " reactions")
  ELSE \A k \in 1..Len(rx) :
         LET x == RateProduct(k, e.y) IN
         Check(FClose(e.out[k], x, Tol(e.be, e.y, <<k>>), 0), "reactant-product",
               e.be \o " reaction " \o ToString(k) \o " expected " \o x \o " got " \o e.out[k])

\* ---- C04 ----
JudgeTendency(e) ==
  IF Len(e.r) # Len(rx) \/ Len(e.out) # NumSpecies
  THEN Bad("dimension", e.be \o " tendencies of " \o ToString(Len(e.out)) \o " species")
  ELSE \A i \in 1..Len(order) :
         LET s == order[i]
             ks == Involving(s)
             x == FSum(TendencyTerms(s, e.r, ks)) IN
         Check(FClose(e.out[i], x, Base(e.be), TendencyScale(s, e.r, ks)), "tendency",
               e.be \o " species " \o s \o " expected " \o x \o " got " \o e.out[i])

\* ---- C05 : rows are sparse lists of <<column, value>> ----
JudgeJacobian(e) ==
  IF Len(e.r) # Len(rx) \/ Len(e.y) # NumSpecies \/ Len(e.rows) # NumSpecies
  THEN Bad("dimension", e.be \o " Jacobian of " \o ToString(Len(e.rows)) \o " rows")
  ELSE \A i \in 1..Len(order) :
    LET s == order[i]
        ks == Involving(s)
        cols == {num[j] : j \in Coupled(s, ks)}
        row == e.rows[i]
        tol == Tol(e.be, e.y, ks)
        obs == [c \in {row[q][1] : q \in 1..Len(row)} |->
                  row[CHOOSE q \in 1..Len(row) : row[q][1] = c][2]]
    IN /\ \A c \in cols :
            LET x == FSum(JacTerms(s, order[c + 1], e.y, e.r, ks))
                o == IF c \in DOMAIN obs THEN obs[c] ELSE "0.0"
            IN Check(FClose(o, x, tol, JacScale(s, order[c + 1], e.y, e.r, ks)), "derivative",
                     e.be \o " d(" \o s \o ")/d(" \o order[c + 1] \o ") expected " \o x \o " got " \o o)
       /\ \A c \in (DOMAIN obs) \ cols :
            Check(FEq(obs[c], 0), "derivative",
                  e.be \o " d(" \o s \o ")/d[" \o ToString(c) \o "] expected 0 got " \o obs[c])

\* ---- C18 ----
JudgeLossGainMatrix(e) ==
  /\ Check(e.shape = <<NumSpecies, Len(rx)>>, "matrix-shape", ToString(e.shape))
  /\ \A i \in 1..Len(order) :
       LET s == order[i]
           row == IF i <= Len(e.rows) THEN e.rows[i] ELSE <<>>
           obs == [c \in {row[q][1] : q \in 1..Len(row)} |->
                     row[CHOOSE q \in 1..Len(row) : row[q][1] = c][2]]
           want(k) == IF s \in Background THEN 0 ELSE Net(k, s)
           ks == {k - 1 : k \in {k \in 1..Len(rx) : want(k) # 0}}
       IN \A c \in ks \cup DOMAIN obs :
            LET x == IF c + 1 \in 1..Len(rx) THEN C(want(c + 1)) ELSE "0.0"
                o == IF c \in DOMAIN obs THEN obs[c] ELSE "0.0"
            IN Check(FClose(o, x, "1.0E-12", 1), "loss-gain-matrix",
                     s \o " reaction " \o ToString(c + 1) \o " expected " \o x \o " got " \o o)
\* rows[k] = <<<<species number, order>>, ...>>
SameOrders(row, k) ==
  LET obs == [c \in {row[q][1] : q \in 1..Len(row)} |->
                row[CHOOSE q \in 1..Len(row) : row[q][1] = c][2]]
  IN /\ Len(row) = Cardinality(DOMAIN rx[k].loss)
     /\ DOMAIN obs = {num[s] : s \in DOMAIN rx[k].loss}
     /\ \A s \in DOMAIN rx[k].loss : FClose(obs[num[s]], C(rx[k].loss[s]), "1.0E-12", 0)
JudgeReactantMatrix(e) ==
  /\ Check(e.shape = <<>> \/ e.shape = <<Len(rx), NumSpecies>>, "matrix-shape", ToString(e.shape))
  /\ Check(Len(e.rows) = Len(rx), "matrix-shape", e.what \o " has " \o ToString(Len(e.rows)) \o " rows")
  /\ \A k \in 1..Len(rx) :
       IF k > Len(e.rows) THEN TRUE
       ELSE Check(SameOrders(e.rows[k], k), e.what,
                  "reaction " \o ToString(k) \o " expected " \o ToString(rx[k].loss) \o " got " \o ToString(e.rows[k]))

\* ---- C08 : peroxy radicals ----
RO2Names == LET f == ndJsonDeserialize("ro2.json")[1].names IN {f[i] : i \in 1..Len(f)}
JudgeRO2(e) ==
  LET want == {num[s] : s \in Species \cap RO2Names}
      got == {e.idx[i] : i \in 1..Len(e.idx)}
  IN /\ Check(got = want, "ro2-set", "missing " \o
              ToString({order[i + 1] : i \in want \ got}) \o " extra " \o ToString(got \ want))
     /\ Check(Len(e.idx) = Cardinality(got), "ro2-once", "an index occurs twice: " \o ToString(e.idx))
     /\ Check(FClose(e.sum, FSum([i \in 1..Len(order) |->
                 IF order[i] \in RO2Names THEN e.y[i] ELSE "0.0"]), RTOL, 0),
              "ro2-sum", "expected sum over " \o ToString(Species \cap RO2Names) \o " got " \o e.sum)

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \/ /\ E.ev = "begin" /\ rx' = <<>> /\ order' = <<>> /\ num' = EmptyFcn
     \/ /\ E.ev = "reaction" /\ ReadReaction(E)
     \/ /\ E.ev = "parse" /\ JudgeParse(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "reactants" /\ JudgeReactants(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "tendency" /\ JudgeTendency(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "jacobian" /\ JudgeJacobian(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "lgmatrix" /\ JudgeLossGainMatrix(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "rematrix" /\ JudgeReactantMatrix(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "ro2" /\ JudgeRO2(E) /\ UNCHANGED mechVars
     \/ /\ E.ev = "failed" /\ Bad("failed", E.what) /\ UNCHANGED mechVars
Init == MechInit /\ l = 1
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED mechVars
Spec == Init /\ [][Step \/ Finish]_tvars
=============================================================================

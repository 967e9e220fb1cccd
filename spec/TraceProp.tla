----------------------------- MODULE TraceProp -----------------------------
(* Judges recorded calls of the property calculation, the size distribution    *)
(* and the readers of databases and snapshots.                                 *)
EXTENDS Float, Integers, Sequences, FiniteSets, TLC, Json
S == INSTANCE SizeDist
L == INSTANCE Selection
A == INSTANCE Attach
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, set
E == Trace[l]
Bad(clause, detail) == PrintT("BAD " \o ToString(l) \o " " \o clause \o " " \o detail)
Check(ok, clause, detail) == IF ok THEN TRUE ELSE Bad(clause, detail)
Range(s) == {s[i] : i \in 1..Len(s)}
SameNums(a, b, rtol, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], rtol, scale)
Which(a, b, rtol, scale) ==
  IF Len(a) # Len(b) THEN ToString(Len(a)) \o " entries instead of " \o ToString(Len(b))
  ELSE LET i == CHOOSE i \in 1..Len(a) : ~FClose(a[i], b[i], rtol, scale)
       IN "entry " \o ToString(i) \o " is " \o a[i] \o " instead of " \o b[i]
Nums(a, b, rtol, scale, clause, what) ==
  IF SameNums(a, b, rtol, scale) THEN TRUE ELSE Bad(clause, what \o ": " \o Which(a, b, rtol, scale))

JudgeSize(e) ==
  LET d == e.d
      x == TLCEval(S!Sizes(d))
      N == TLCEval(S!Numbers(d))
  IN /\ Nums(e.x, x, "1.0E-9", 0, "sizes", "sizes")
     /\ Nums(e.N, N, "1.0E-7", FMul(d.total, "1.0E-12"), "numbers", "numbers")
     /\ Check(FIsNum(FSum(e.N)) /\ FClose(FSum(e.N), d.total, "1.0E-9", 0), "total", "numbers add up to " \o FSum(e.N) \o " of " \o d.total)
     /\ \A b \in 1..Len(e.N) : Check(FLe("0.0", e.N[b]), "numbers", "bin " \o ToString(b) \o " holds " \o e.N[b])

\* what the property calculation returns for the set-up
JudgeProps(e) ==
  LET inc == TLCEval(L!Included(set))
      n == Len(set.order)
      ign == (0..(n - 1)) \ inc
      arr(f, d) == TLCEval([i \in 1..n |-> IF L!Known(set, set.order[i]) THEN f[i] ELSE d])
      pr == TLCEval([i \in 1..n |-> IF L!Known(set, set.order[i]) THEN L!Properties(set, set.order[i]) ELSE <<>>])
      col(k, d) == [i \in 1..n |-> IF pr[i] = <<>> THEN d ELSE pr[i][k]]
  IN /\ Check(Range(e.include) = inc /\ Len(e.include) = Cardinality(inc), "classes",
              "condensing " \o ToString(e.include) \o " instead of " \o ToString(inc))
     /\ Check(Range(e.ignore) = ign /\ Len(e.ignore) = Cardinality(ign), "classes",
              "ignored " \o ToString(e.ignore) \o " instead of " \o ToString(ign))
     /\ Check(Len(e.flags) = n /\ \A i \in 1..Len(e.flags) : FEq(e.flags[i], IF (i - 1) \in ign THEN "1.0" ELSE "0.0"), "classes",
              "flags " \o ToString(e.flags))
     /\ Nums(e.density, col("density", "1000.0"), "1.0E-9", 0, "alignment", "density")
     /\ Nums(e.mw, col("mw", "200.0"), "1.0E-9", 0, "alignment", "molar mass")
     /\ Nums(e.vp, col("vp", "100.0"), "1.0E-9", "1.0E-3", "alignment", "vapour pressure")
     /\ Nums(e.oc, col("oc", "0.0"), "1.0E-9", 0, "alignment", "O:C")
     /\ Nums(e.hc, col("hc", "0.0"), "1.0E-9", 0, "alignment", "H:C")
     /\ Check(Len(e.dh) = n /\ Len(e.lh) = n, "alignment", "enthalpy arrays of length " \o ToString(<<Len(e.dh), Len(e.lh)>>))
JudgeKinetic(e) ==
  /\ Nums(e.D, [i \in 1..Len(e.mw) |-> L!Diffusivity(e.mw[i])], "1.0E-9", 0, "kinetic", "diffusivity")
  /\ Nums(e.vel, [i \in 1..Len(e.mw) |-> L!Speed(e.mw[i], e.T, e.R)], "1.0E-9", 0, "kinetic", "mean thermal speed")
  /\ Nums(e.gamma, [i \in 1..Len(e.mw) |-> L!FreePath(e.mw[i], e.T, e.R)], "1.0E-9", 0, "kinetic", "mean free path")
  /\ Nums(e.alpha, [i \in 1..Len(e.mw) |-> L!Accommodation], "1.0E-9", 0, "kinetic", "accommodation coefficient")

Pairs(f) == {<<f[i][1], f[i][2]>> : i \in 1..Len(f)}
JudgeAttach(e) ==
  LET want == TLCEval(A!Structures(set.species, set.db)) IN
  /\ Check(Pairs(e.smiles) = want, "structure",
           "attached but not to be: " \o ToString(Pairs(e.smiles) \ want) \o ", missing: " \o ToString(want \ Pairs(e.smiles)))
  /\ Check(Pairs(e.objects) = {<<p[2], p[2]>> : p \in want}, "structure", "objects: " \o ToString(Pairs(e.objects)))
JudgeSnapshot(e) ==
  LET cs == TLCEval(A!Compounds(set.lines))
      n == Len(cs)
      named == {<<ToString(i - 1), cs[i].n>> : i \in 1..n}
  IN /\ Check(e.n = n, "snapshot-number", ToString(e.n) \o " compounds instead of " \o ToString(n))
     /\ Check(Pairs(e.dict) = named, "snapshot-number", "numbered " \o ToString(e.dict))
     /\ Check(Pairs(e.dict2array) = {<<p[2], p[1]>> : p \in named}, "snapshot-number", "inverse numbering " \o ToString(e.dict2array))
     /\ Check(e.array = [i \in 1..n |-> cs[i].n], "snapshot-number", "array " \o ToString(e.array))
     /\ Check(Pairs(e.smiles) = {<<cs[i].n, cs[i].n>> : i \in 1..n}, "structure", "structures " \o ToString(e.smiles))
     /\ Check(Pairs(e.objects) = {<<cs[i].n, cs[i].n>> : i \in 1..n}, "structure", "objects " \o ToString(e.objects))
     /\ Nums(e.concs, [i \in 1..n |-> cs[i].c], "1.0E-12", 0, "concentration", "concentrations")
     /\ \A w \in 1..Len(e.byobject) : LET q == e.byobject[w] IN
          /\ Check({q[i][1] : i \in 1..Len(q)} = {cs[i].n : i \in 1..n} /\ Len(q) = n, "concentration", "compounds with a concentration")
          /\ \A i \in 1..Len(q) : \A k \in 1..n : cs[k].n = q[i][1] =>
               Check(FClose(q[i][2], cs[k].c, "1.0E-12", 0), "concentration", q[i][1] \o " has " \o q[i][2] \o " instead of " \o cs[k].c)
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.ev = "begin" -> set' = <<>>
             [] E.ev = "setup" -> set' = E
             [] OTHER -> /\ UNCHANGED set
                         /\ CASE E.ev = "size" -> JudgeSize(E)
                              [] E.ev = "props" -> JudgeProps(E)
                              [] E.ev = "kinetic" -> JudgeKinetic(E)
                              [] E.ev = "attach" -> JudgeAttach(E)
                              [] E.ev = "snapshot" -> JudgeSnapshot(E)
                              [] E.ev = "failed" -> Bad("failed", E.what)
                              [] OTHER -> Bad("failed", "unknown event " \o E.ev)
Init == l = 1 /\ set = <<>>
Finish == l = Len(Trace) + 1 /\ PrintT("DONE " \o ToString(Len(Trace))) /\ l' = l + 1 /\ UNCHANGED set
Spec == Init /\ [][Step \/ Finish]_<<l, set>>
=============================================================================

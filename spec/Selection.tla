----------------------------- MODULE Selection -----------------------------
(* Which species can condense, and the properties each gets.  A set-up holds   *)
(* the species in numbering order, for those with a known structure what the   *)
(* property estimation methods say about it, the methods chosen, the           *)
(* temperature and the cut-off.                                                *)
EXTENDS Float, Integers, Sequences, FiniteSets
\* ---- the estimation methods, one number per structure and method; what they depend on matters here ----
Data(u, s) == u.data[s]
Known(u, s) == s \in DOMAIN u.data
Boiling(u, m, s) == Data(u, s).bp[m]
Vapour(u, m, s, T, b) ==
  LET v == FAdd(Data(u, s).vp[m], FMul("0.013", FSub(T, "298.15")))
  IN IF m = "evaporation" THEN v ELSE FSub(v, FMul("0.0021", b))
Critical(u, m, s, b) == FAdd(Data(u, s).crit[m], FMul("0.37", b))
LiquidDensity(u, m, s, T, c) ==
  LET v == Data(u, s).dens[m]
  IN IF m = "girolami" THEN v ELSE FSub(FAdd(v, FMul("0.00011", c)), FMul("0.0007", FSub(T, "298.15")))
\* ---- properties of a species with a structure ----
Properties(u, s) ==
  [density |-> FMul("1.0E3", LiquidDensity(u, u.density, s, u.T, Critical(u, u.critical, s, Boiling(u, "nannoolal", s)))),
   vp |-> Vapour(u, u.vp, s, u.T, Boiling(u, u.bp, s)),
   mw |-> Data(u, s).mw,
   oc |-> FDiv(Data(u, s).O, Data(u, s).C),
   hc |-> FDiv(Data(u, s).H, Data(u, s).C)]
\* ---- selection ----
Condensing(u, s) == Known(u, s) /\ (u.drop => FLe(Properties(u, s).vp, u.cutoff))
Included(u) == {i \in 0..(Len(u.order) - 1) : Condensing(u, u.order[i + 1])}
\* ---- transport properties ----
Accommodation == "0.1"
Diffusivity(mw) == FMul("1.9", FPow(mw, FDiv("-2.0", "3.0")))
Speed(mw, T, R) == FSqrt(FDiv(FMul(FMul("8.0", R), T), FMul("3.141592653589793", FMul(mw, "1.0E-3"))))
FreePath(mw, T, R) == FMul(FDiv(FMul("3.0", Diffusivity(mw)), FMul(Speed(mw, T, R), "1.0E2")), "1.0E-2")
=============================================================================

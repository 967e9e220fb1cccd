----------------------------- MODULE Partition -----------------------------
(* Gas-to-particle partitioning of one particle population.  A set-up p is a   *)
(* record: nsp gas-phase compounds (water last), nc condensing compounds       *)
(* (water last), nb size bins, inc[i] the gas-phase number (0-based) of the    *)
(* i-th condensing compound; per compound mw [g/mol], rho [kg/m3], psat [log10 *)
(* atm], D [cm2/s], alpha, gamma [m]; per bin N [/cc], core [molecules/cc],    *)
(* rhocore, mwcore; diss, sigma, NA, R, T.  A state y holds the gas phase and  *)
(* then, bin by bin, the condensed compounds [molecules/cc].                   *)
EXTENDS Float, Integers, Sequences, FiniteSets

\* ---- layout ----
Total(p) == p.nsp + p.nc * p.nb
Slot(p, b, i) == p.nsp + (b - 1) * p.nc + i                 \* 1-based
GasSlot(p, i) == p.inc[i] + 1
\* compound (0-based gas number) whose amount slot s holds
CompoundOf(p, s) == IF s <= p.nsp THEN s - 1 ELSE p.inc[((s - p.nsp - 1) % p.nc) + 1]
BinOf(p, s) == ((s - p.nsp - 1) \div p.nc) + 1
Condenses(p, g) == \E i \in 1..p.nc : p.inc[i] = g

\* ---- one bin ----
Pi == "3.141592653589793"
Mass(p, y, b, i) == FMul(FDiv(y[Slot(p, b, i)], p.NA), p.mw[i])          \* g/cc
CoreMass(p, b) == FMul(FDiv(p.core[b], p.NA), p.mwcore[b])
TotalMass(p, y, b) == FAdd(FSum([i \in 1..p.nc |-> Mass(p, y, b, i)]), CoreMass(p, b))
TotalMoles(p, y, b) == FAdd(FSum([i \in 1..p.nc |-> y[Slot(p, b, i)]]), FMul(p.core[b], p.diss))
Density(p, y, b) ==      \* mass divided by volume
  FDiv(TotalMass(p, y, b),
       FAdd(FSum([i \in 1..p.nc |-> FDiv(Mass(p, y, b, i), p.rho[i])]), FDiv(CoreMass(p, b), p.rhocore[b])))
Radius(p, y, b) ==       \* [m], of a sphere holding one particle's share
  FPow(FDiv(FMul("3.0", FDiv(FMul(TotalMass(p, y, b), "1.0E3"), FMul(p.N[b], "1.0E6"))),
            FMul(FMul("4.0", Pi), Density(p, y, b))), FDiv("1.0", "3.0"))
WaterActivity(p, y, b) == FDiv(y[Slot(p, b, p.nc)], TotalMoles(p, y, b))

\* saturation pressure of water [Pa], [log10 atm]
WaterPa(T) ==
  LET e == FAdd(FAdd(FAdd(FDiv("-0.58002206E4", T), "0.13914993E1"), FMul("-0.48640239E-1", T)),
                FAdd(FAdd(FMul("0.41764768E-4", FPow(T, "2.0")), FMul("-0.14452093E-7", FPow(T, "3.0"))),
                     FMul("0.65459673E1", FLog(T))))
  IN FExp(e)
WaterPsat(T) == FLog10(FMul(WaterPa(T), "9.86923E-6"))

\* everything about bin b that the compounds share
Bin(p, y, b) ==
  [r |-> Radius(p, y, b), rho |-> Density(p, y, b), moles |-> TotalMoles(p, y, b), b |-> b]
KelvinArg(p, q, i) ==
  FDiv(FMul(FMul(FMul("4.0", p.mw[i]), "1.0E-3"), p.sigma),
       FMul(FMul(FMul(p.R, p.T), FMul(q.r, "2.0")), q.rho))
CEq(p, y, q, i) ==       \* equilibrium gas concentration over bin q [molecules/cc]
  LET x == FDiv(y[Slot(p, q.b, i)], q.moles)
      atm == FMul(FMul(FExp(KelvinArg(p, q, i)), x), FPow("10.0", p.psat[i]))
  IN FDiv(FMul(FMul(atm, "101325.0"), p.NA), FMul("8.3144598E6", p.T))
Transfer(p, q, i) ==     \* rate constant of the transfer [1/s]
  LET kn == FDiv(p.gamma[i], q.r)
      ikn == FDiv(q.r, p.gamma[i])
      c1 == FDiv(FAdd("1.33", FMul("0.71", ikn)), FAdd("1.0", ikn))
      c2 == FDiv(FMul("4.0", FSub("1.0", p.alpha[i])), FMul("3.0", p.alpha[i]))
      f == FDiv("1.0", FAdd("1.0", FMul(FAdd(c1, c2), kn)))
  IN FMul(FMul(FMul(FMul("4.0", Pi), FMul(q.r, "1.0E2")), FMul(p.N[q.b], p.D[i])), f)

\* ---- the exchange: flux[b][i] from gas to bin, with the magnitude it is judged at ----
Flux(p, y) ==
  [b \in 1..p.nb |->
    LET q == Bin(p, y, b) IN
    [i \in 1..p.nc |->
      LET k == Transfer(p, q, i)
          c == CEq(p, y, q, i)
          g == y[GasSlot(p, i)]
      IN [v |-> FMul(k, FSub(g, c)), k |-> k, eq |-> c,
          s |-> FMul(FMul(k, FAdd(FAbs(g), FAbs(c))), FAdd("1.0", FAbs(KelvinArg(p, q, i))))]]]
\* contribution to slot s: the bins gain what the gas phase loses
Exchange(p, fl, s) ==
  IF s > p.nsp THEN fl[BinOf(p, s)][((s - p.nsp - 1) % p.nc) + 1].v
  ELSE IF ~Condenses(p, s - 1) THEN "0.0"
  ELSE LET i == CHOOSE i \in 1..p.nc : p.inc[i] = s - 1
       IN FNeg(FSum([b \in 1..p.nb |-> fl[b][i].v]))
ExchangeScale(p, fl, s) ==
  IF s > p.nsp THEN fl[BinOf(p, s)][((s - p.nsp - 1) % p.nc) + 1].s
  ELSE IF ~Condenses(p, s - 1) THEN "0.0"
  ELSE LET i == CHOOSE i \in 1..p.nc : p.inc[i] = s - 1
       IN FSumAbs([b \in 1..p.nb |-> fl[b][i].s])

OrganicMass(p, y) ==     \* micrograms/m3, all condensed compounds except water
  FMul("1.0E12", FSum([k \in 1..(p.nb * (p.nc - 1)) |->
     Mass(p, y, ((k - 1) \div (p.nc - 1)) + 1, ((k - 1) % (p.nc - 1)) + 1)]))
OrganicScale(p, y) ==
  FMul("1.0E12", FSumAbs([k \in 1..(p.nb * (p.nc - 1)) |->
     Mass(p, y, ((k - 1) \div (p.nc - 1)) + 1, ((k - 1) % (p.nc - 1)) + 1)]))
=============================================================================

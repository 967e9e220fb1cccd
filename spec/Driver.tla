------------------------------- MODULE Driver -------------------------------
(* What a driver script sets up from its settings st: water vapour, starting   *)
(* time, initial mixture, particle population, and one property entry per      *)
(* condensing compound with water last.                                        *)
EXTENDS Float, Integers, Sequences, FiniteSets
Sz == INSTANCE SizeDist
Sel == INSTANCE Selection
Att == INSTANCE Attach
Par == INSTANCE Partition

Avogadro == "6.0221409E23"
StartTime(st) == FMul(st.hour, "3600.0")
\* ---- water vapour [molecules/cc] ----
Celsius(st) == FSub(st.T, "273.15")
Buck(st) == FMul("610.78", FExp(FMul(FDiv(Celsius(st), FAdd(Celsius(st), "238.3")), "17.2694")))
WaterGasPhase(st) ==
  FMul(FDiv(FMul(FMul("0.002166", FDiv(FMul(st.RH, Buck(st)), FAdd(Celsius(st), "273.16"))), "1.0E-6"), "18.0E-3"), Avogadro)
WaterYield(st) ==
  FDiv(FMul(FMul(FMul(st.RH, Avogadro), Par!WaterPa(st.T)), "1.0E-6"), FMul("8.314472", st.T))
Water(st) == IF st.kind = "yield" THEN WaterYield(st) ELSE WaterGasPhase(st)
\* ---- initial mixture ----
Initial(st) == <<<<"O3", st.o3>>, <<"APINENE", st.apinene>>>>
               \o (IF st.kind = "aerosol" THEN <<<<"H2O", Water(st)>>>> ELSE <<>>)
VocPpb(st) == FDiv(FMul(st.voc, st.T), FMul("12.187", "136.24"))
YieldGas(st, cs) == [i \in 1..Len(cs) |-> FMul(FMul(cs[i].c, VocPpb(st)), "2.46E10")] \o <<Water(st)>>
\* ---- compounds ----
\* species that have a structure: named in the species database, oxidants excepted
Structured(st, order) == {order[i] : i \in 1..Len(order)} \cap ((DOMAIN st.sel.data) \ Att!NoStructure)
Choice(st, order) == [st.sel EXCEPT !.order = order, !.T = st.T, !.data = [s \in Structured(st, order) |-> st.sel.data[s]]]
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A k \in S : m <= k IN <<m>> \o Ascending(S \ {m})
\* ---- particles: involatile cores of one material ----
Core(st, N, x, b) ==
  FMul(FMul(FDiv(FMul(FMul(FDiv("4.0", "3.0"), Par!Pi), FMul(FPow(FMul(x[b], "1.0E-6"), "3.0"), st.rhocore)), FMul(st.mwcore, "1.0E-3")),
            Avogadro), N[b])
Population(st) == [n |-> st.bins, total |-> st.total, M |-> st.mean, s |-> st.std, lo |-> st.lo, hi |-> st.hi]
Particles(st, order) ==
  LET u == Choice(st, order)
      in == Ascending(Sel!Included(u))
      pr == [i \in 1..Len(in) |-> Sel!Properties(u, order[in[i] + 1])]
      mw == [i \in 1..Len(in) |-> pr[i].mw] \o <<"18.0">>
      nc == Len(in) + 1
      d == Population(st)
      N == Sz!Numbers(d)
      x == Sz!Sizes(d)
  IN [nsp |-> Len(order) + 1, nc |-> nc, nb |-> st.bins, inc |-> in \o <<Len(order)>>, mw |-> mw,
      rho |-> [i \in 1..Len(in) |-> pr[i].density] \o <<"1000.0">>,
      psat |-> [i \in 1..Len(in) |-> pr[i].vp] \o <<"0.0">>,
      D |-> [i \in 1..nc |-> Sel!Diffusivity(mw[i])], alpha |-> [i \in 1..nc |-> Sel!Accommodation],
      gamma |-> [i \in 1..nc |-> Sel!FreePath(mw[i], st.T, "8.3144598")],
      N |-> N, core |-> [b \in 1..st.bins |-> Core(st, N, x, b)],
      rhocore |-> [b \in 1..st.bins |-> st.rhocore], mwcore |-> [b \in 1..st.bins |-> st.mwcore],
      diss |-> st.diss, sigma |-> st.sigma, NA |-> Avogadro, R |-> "8.3144598", T |-> st.T]
\* the particles start with the water their cores take up at this humidity, and nothing else
Condensed(st, p) ==
  [k \in 1..(p.nc * p.nb) |->
     IF k % p.nc # 0 THEN "0.0"
     ELSE FMul(FMul(p.core[k \div p.nc], st.diss), FDiv(st.RH, FSub("1.0", st.RH)))]
=============================================================================

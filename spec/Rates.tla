------------------------------- MODULE Rates -------------------------------
(* Meaning of MCM rate expressions: the named constants of the MCM, the        *)
(* photolysis rates of the AtChem parameterisation at 51.51 N 0.13 E on day    *)
(* 150, and the value of an expression tree.  env = [T, W, R, tt] holds the    *)
(* temperature, water concentration, peroxy total and time of day (seconds).   *)
EXTENDS Approx, Integers, Sequences

Arrh(a, b, T) == Mul(Lit(a), Exp(Div(Lit(b), T)))          \* a*exp(b/T)
Rat(T, c) == Div(T, Lit(c))
One == Lit("1.0")
\* Troe fall-off between low-pressure k0 and high-pressure ki limits
Broad(k0, ki, fc) ==
  LET n == Sub(Lit("0.75"), Mul(Lit("1.27"), Log10(fc)))
      q == Div(Log10(Div(k0, ki)), n)
  IN Pow(Lit("10.0"), Div(Log10(fc), Add(One, Mul(q, q))))
Lind(k0, ki, f) == Div(Mul(Mul(k0, ki), f), Add(k0, ki))
Troe(k0, ki, fc) == Lind(k0, ki, Broad(k0, ki, fc))

MM == Lit("2.55E+19")
NN2 == Mul(Lit("0.79"), MM)
OO2 == Mul(Lit("0.2095"), MM)

ConstNames == {"M", "N2", "O2", "KRONO2", "KRO2NO", "KRO2HO2", "KAPHO2", "KAPNO", "KRO2NO3", "KNO3AL",
  "KDEC", "KROSEC", "KALKOXY", "KALKPXY", "KROPRIM", "KCH3O2", "K298CH3O2", "K14ISOM1", "KFPAN", "KBPAN",
  "KBPPN", "KMT01", "KMT02", "KMT03", "KMT04", "KMT05", "KMT06", "KMT07", "KMT08", "KMT09", "KMT10",
  "KMT11", "KMT12", "KMT13", "KMT14", "KMT15", "KMT16", "KMT17", "KMT18"}
Const(n, T, W) ==
  LET P(c, x) == Pow(Rat(T, "300.0"), Lit(x))        \* (T/300)**x
      Low(a, x) == Mul(Mul(Lit(a), P(0, x)), MM)     \* a*(T/300)**x*M
      High(a, x) == Mul(Lit(a), P(0, x))
  IN CASE n = "M" -> MM [] n = "N2" -> NN2 [] n = "O2" -> OO2
     [] n = "KRONO2" -> Arrh("2.7E-12", "360.0", T)
     [] n = "KRO2NO" -> Arrh("2.7E-12", "360.0", T)
     [] n = "KRO2HO2" -> Arrh("2.91E-13", "1300.0", T)
     [] n = "KAPHO2" -> Arrh("5.2E-13", "980.0", T)
     [] n = "KAPNO" -> Arrh("7.5E-12", "290.0", T)
     [] n = "KRO2NO3" -> Lit("2.3E-12")
     [] n = "KNO3AL" -> Arrh("1.4E-12", "-1860.0", T)
     [] n = "KDEC" -> Lit("1.0E+6")
     [] n = "KROSEC" -> Arrh("2.5E-14", "-300.0", T)
     [] n = "KALKOXY" -> Mul(Arrh("3.7E-14", "-460.0", T), OO2)
     [] n = "KALKPXY" -> Mul(Arrh("1.8E-14", "-260.0", T), OO2)
     [] n = "KROPRIM" -> Arrh("2.5E-14", "-300.0", T)
     [] n = "KCH3O2" -> Arrh("1.03E-13", "365.0", T)
     [] n = "K298CH3O2" -> Lit("3.5E-13")
     [] n = "K14ISOM1" -> Arrh("3.0E+7", "-5300.0", T)
     [] n = "KFPAN" -> Troe(Low("3.28E-28", "-6.87"), High("1.125E-11", "-1.105"), Lit("0.30"))
     [] n = "KBPAN" -> Troe(Mul(Arrh("1.1E-5", "-10100.0", T), MM), Arrh("1.9E+17", "-14100.0", T), Lit("0.30"))
     [] n = "KBPPN" -> Lind(Mul(Arrh("1.7E-3", "-11280.0", T), MM), Arrh("8.3E+16", "-13940.0", T), Lit("0.36"))
     [] n = "KMT01" -> Troe(Low("1.0E-31", "-1.6"), High("5.0E-11", "0.3"), Lit("0.85"))
     [] n = "KMT02" -> Troe(Low("1.3E-31", "-1.5"), High("2.3E-11", "0.24"), Lit("0.6"))
     [] n = "KMT03" -> Troe(Low("3.6E-30", "-4.1"), High("1.9E-12", "0.2"), Lit("0.35"))
     [] n = "KMT04" -> Troe(Mul(Low("1.3E-3", "-3.5"), Exp(Div(Lit("-11000.0"), T))),
                            Mul(High("9.7E+14", "0.1"), Exp(Div(Lit("-11080.0"), T))), Lit("0.35"))
     [] n = "KMT05" -> Mul(Lit("1.44E-13"), Add(One, Div(MM, Lit("4.2E+19"))))
     [] n = "KMT06" -> Add(One, Mul(Arrh("1.4E-21", "2200.0", T), W))
     [] n = "KMT07" -> Troe(Low("7.4E-31", "-2.4"), High("3.3E-11", "-0.3"), Lit("0.81"))
     [] n = "KMT08" -> Troe(Low("3.2E-30", "-4.5"), Lit("3.0E-11"), Lit("0.41"))
     [] n = "KMT09" -> Troe(Low("1.4E-31", "-3.1"), Lit("4.0E-12"), Lit("0.4"))
     [] n = "KMT10" -> Troe(Mul(Arrh("4.1E-5", "-10650.0", T), MM), Arrh("6.0E+15", "-11170.0", T), Lit("0.4"))
     [] n = "KMT11" -> LET k3 == Mul(Arrh("6.5E-34", "1335.0", T), MM)
                       IN Add(Arrh("2.4E-14", "460.0", T), Div(k3, Add(One, Div(k3, Arrh("2.7E-17", "2199.0", T)))))
     [] n = "KMT12" -> Troe(Low("2.5E-31", "-2.6"), Lit("2.0E-12"), Lit("0.53"))
     [] n = "KMT13" -> Troe(Low("2.5E-30", "-5.5"), Lit("1.8E-11"), Lit("0.36"))
     [] n = "KMT14" -> Troe(Mul(Arrh("9.0E-5", "-9690.0", T), MM), Arrh("1.1E+16", "-10560.0", T), Lit("0.36"))
     [] n = "KMT15" -> Troe(Low("8.6E-29", "-3.1"), High("9.0E-12", "-0.85"), Lit("0.48"))
     [] n = "KMT16" -> Troe(Low("8.0E-27", "-3.5"), High("3.0E-11", "-1.0"), Lit("0.5"))
     [] n = "KMT17" -> Troe(Low("5.0E-30", "-1.5"), Lit("1.0E-12"),
                            Add(Arrh("0.17", "-51.0", T), Exp(Div(Neg(T), Lit("204.0")))))
     [] OTHER -> \* KMT18
          Div(Mul(Arrh("9.5E-39", "5270.0", T), OO2), Add(One, Mul(Arrh("7.5E-29", "5610.0", T), OO2)))

(* ---- photolysis ---- *)
Pi == Lit("3.14159265358979")
CosZenith(tt) ==
  LET day == "150.0"
      th == Div(Mul(Mul(Lit("2.0"), Pi), Sub(Lit(day), One)), Lit("365.0"))
      two == Mul(Lit("2.0"), th)
      three == Mul(Lit("3.0"), th)
      S(c, f) == Mul(Lit(c), f)
      dec == Add(Add(Add(Lit("0.006918"), S("-0.399912", Cos(th))),
                     Add(S("0.070257", Sin(th)), S("-0.006758", Cos(two)))),
                 Add(S("0.000907", Sin(two)), Add(S("-0.002697", Cos(three)), S("0.001480", Sin(three)))))
      eqt == Add(Add(Lit("0.000075"), Add(S("0.001868", Cos(th)), S("-0.032077", Sin(th)))),
                 Add(S("-0.014615", Cos(two)), S("-0.040849", Sin(two))))
      \* hours since midnight: the sun does not care which day it is
      sec == FSub(tt, FMul("86400.0", FFloor(FDiv(tt, "86400.0"))))
      hour == In(FDiv(sec, "3600.0"))
      lha == Add(Mul(Pi, Sub(Div(hour, Lit("12.0")), Add(One, Div(Lit("0.13"), Lit("180.0"))))), eqt)
      lat == Div(Mul(Lit("51.51"), Pi), Lit("180.0"))
  IN Add(Mul(Cos(lha), Mul(Cos(lat), Cos(dec))), Mul(Sin(lat), Sin(dec)))

\* J(n) = l * cosx**m * exp(-n*secx)
JTable == <<
  <<1, "6.073E-05", "1.743", "0.474">>, <<2, "4.775E-04", "0.298", "0.080">>, <<3, "1.041E-05", "0.723", "0.279">>,
  <<4, "1.165E-02", "0.244", "0.267">>, <<5, "2.485E-02", "0.168", "0.108">>, <<6, "1.747E-01", "0.155", "0.125">>,
  <<7, "2.644E-03", "0.261", "0.288">>, <<8, "9.312E-07", "1.230", "0.307">>, <<11, "4.642E-05", "0.762", "0.353">>,
  <<12, "6.853E-05", "0.477", "0.323">>, <<13, "7.344E-06", "1.202", "0.417">>, <<14, "2.879E-05", "1.067", "0.358">>,
  <<15, "2.792E-05", "0.805", "0.338">>, <<16, "1.675E-05", "0.805", "0.338">>, <<17, "7.914E-05", "0.764", "0.364">>,
  <<18, "1.482E-06", "0.396", "0.298">>, <<19, "1.482E-05", "0.396", "0.298">>, <<20, "7.600E-04", "0.396", "0.298">>,
  <<21, "7.992E-07", "1.578", "0.271">>, <<22, "5.804E-06", "1.092", "0.377">>, <<23, "2.4246E-06", "0.395", "0.296">>,
  <<24, "2.424E-06", "0.395", "0.296">>, <<31, "6.845E-05", "0.130", "0.201">>, <<32, "1.032E-05", "0.130", "0.201">>,
  <<33, "3.802E-05", "0.644", "0.312">>, <<34, "1.537E-04", "0.170", "0.208">>, <<35, "3.326E-04", "0.148", "0.215">>,
  <<41, "7.649E-06", "0.682", "0.279">>, <<51, "1.588E-06", "1.154", "0.318">>, <<52, "1.907E-06", "1.244", "0.335">>,
  <<53, "2.485E-06", "1.196", "0.328">>, <<54, "4.095E-06", "1.111", "0.316">>, <<55, "1.135E-05", "0.974", "0.309">>,
  <<56, "4.365E-05", "1.089", "0.323">>, <<57, "3.363E-06", "1.296", "0.322">>, <<61, "7.537E-04", "0.499", "0.266">> >>
JNumbers == {JTable[i][1] : i \in 1..Len(JTable)}
Photo(cz) ==
  LET row(n) == JTable[CHOOSE i \in 1..Len(JTable) : JTable[i][1] = n]
  IN [n \in JNumbers |->
        IF FLt(cz.v, FNeg(cz.e)) THEN Num("0.0", "0.0", FALSE)          \* night
        ELSE IF FLe(cz.v, cz.e) THEN Num("0.0", "inf", FALSE)           \* at the horizon
        ELSE LET r == row(n) IN
             Mul(Mul(Lit(r[2]), Pow(cz, Lit(r[3]))), Exp(Neg(Div(Lit(r[4]), cz))))]

\* everything an expression can name
Env(e) ==
  LET T == In(e.T) W == In(e.W) cz == CosZenith(e.tt)
  IN [c |-> [n \in ConstNames |-> Const(n, T, W)], j |-> Photo(cz), T |-> T, W |-> W, R |-> In(e.R)]

(* ---- expression trees ---- *)
RECURSIVE Val(_, _)
Val(a, env) ==
  CASE a.o = "lit" -> Lit(a.t)
    [] a.o = "J" -> env.j[a.n]
    [] a.o = "var" -> (CASE a.t = "TEMP" -> env.T [] a.t = "H2O" -> env.W [] a.t = "RO2" -> env.R [] OTHER -> env.c[a.t])
    [] a.o = "neg" -> Neg(Val(a.a, env))
    [] a.o = "EXP" -> Exp(Val(a.a, env))
    [] a.o = "LOG" -> Log(Val(a.a, env))
    [] a.o = "LOG10" -> Log10(Val(a.a, env))
    [] a.o = "SQRT" -> Sqrt(Val(a.a, env))
    [] a.o = "ABS" -> Abs(Val(a.a, env))
    [] a.o = "+" -> Add(Val(a.a, env), Val(a.b, env))
    [] a.o = "-" -> Sub(Val(a.a, env), Val(a.b, env))
    [] a.o = "*" -> Mul(Val(a.a, env), Val(a.b, env))
    [] a.o = "/" -> Div(Val(a.a, env), Val(a.b, env))
    [] OTHER -> Pow(Val(a.a, env), Val(a.b, env))
=============================================================================

------------------------------ MODULE MechGen ------------------------------
(* Writes mechanism files, token by token, together with what they mean.       *)
(* TLC simulates this module; every completed behaviour is printed as JSON     *)
(* (the text to feed to the code, and the reactions it denotes).               *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS
  MaxRx, MinRx,      \* number of reactions
  MaxL, MaxR,        \* terms on the left / right
  NameSets,          \* set of sets of species names to draw from
  CoefClasses,       \* subset of {"none", "int", "dec"}
  Wild,              \* BOOLEAN: all layouts, or the plain one
  Photons,           \* BOOLEAN: hv terms
  MaxOrder,          \* a reaction's largest total order
  RateMode           \* "const" (distinct numbers), "mixed" (MCM forms),
                     \* "env" (everything depends on the surroundings), "ro2"

One == 3000000          \* Kinetics!Unit
Millionth == 3
Scaled(F) == {[t |-> f.t, c |-> Millionth * f.c] : f \in F}
IntForms == Scaled({[t |-> "2", c |-> 2000000], [t |-> "2.0", c |-> 2000000], [t |-> "3", c |-> 3000000],
             [t |-> "1", c |-> 1000000], [t |-> "1.0", c |-> 1000000]})
DecForms == Scaled({[t |-> "0.5", c |-> 500000], [t |-> "1.5", c |-> 1500000], [t |-> "0.35", c |-> 350000],
             [t |-> "0.25", c |-> 250000], [t |-> ".75", c |-> 750000], [t |-> "2.50", c |-> 2500000],
             [t |-> "0.05", c |-> 50000], [t |-> "10.0", c |-> 10000000], [t |-> "12", c |-> 12000000], [t |-> "0.125", c |-> 125000],
             [t |-> "0.0333", c |-> 33300], [t |-> "1.0625", c |-> 1062500], [t |-> "0.9995", c |-> 999500],
             [t |-> "12.5", c |-> 12500000], [t |-> "0.000125", c |-> 125], [t |-> "0.123456", c |-> 123456], [t |-> "1.000003", c |-> 1000003],
             [t |-> "120", c |-> 120000000], [t |-> "100.0", c |-> 100000000], [t |-> "0.00005", c |-> 50]})
            \cup {[t |-> "0.3333333333333333", c |-> 1000000], [t |-> ".6666666666666666", c |-> 2000000]}
CoefForms(class) == CASE class = "none" -> {[t |-> "", c |-> One]}
                      [] class = "int" -> IntForms
                      [] OTHER -> DecForms

Plus == IF Wild THEN {" + ", "+", " +\n\t", "  +   ", "\n+ "} ELSE {" + "}
Sep == IF Wild THEN {"", " ", "\t", "\n  "} ELSE {""}
Eq == IF Wild THEN {" = ", "=", "\n = ", " =\n", "\t=\t"} ELSE {" = "}
Colon == IF Wild THEN {" : ", ":", "\t:\t", " :\n  "} ELSE {" : "}
Stop == IF Wild THEN {" ;\n", ";", " ; \n\n", ";\r\n", ";\n// next\n"} ELSE {" ;\n"}
Glue == IF Wild THEN {"", " ", "\n "} ELSE {""}
Lead == IF Wild THEN {" ", "", "\n", "\t "} ELSE {" "}
LabelStyles == IF Wild THEN {"dot", "plain", "tens", "same", "word"} ELSE {"dot"}
Header == IF Wild THEN {"", "#EQUATIONS\n", "// made by hand\n#INLINE nothing\n"} ELSE {""}

Label(style, k) ==
  CASE style = "dot" -> ToString(k) \o "."
    [] style = "plain" -> ToString(k)
    [] style = "tens" -> ToString(10 * k)
    [] style = "same" -> "1"
    [] OTHER -> "R" \o ToString(k)

\* tokens of the rate expression of reaction k, and the tree they denote (module Rates)
Lit(t) == [o |-> "lit", t |-> t]
Var(t) == [o |-> "var", t |-> t]
Op(o, a, b) == [o |-> o, a |-> a, b |-> b]
J(n) == [o |-> "J", n |-> n]
JText(n) == "J(" \o ToString(n) \o ")"
RateForms(k) ==
  LET n == ToString(k)
      Times(t, x, s) == [f |-> <<t, "*", s>>, a |-> Op("*", Lit(t), x)]
  IN
  CASE RateMode = "const" -> {[f |-> <<n \o ".5D-3">>, a |-> Lit(n \o ".5D-3")]}
    [] RateMode = "ro2" -> {Times(n \o ".5D-3", Var("RO2"), "RO2")}
    [] OTHER ->
       (IF RateMode = "env" THEN {} ELSE
        {[f |-> <<n \o ".25E-2">>, a |-> Lit(n \o ".25E-2")],
         [f |-> <<"KDEC", "*", n \o ".0E-6">>, a |-> Op("*", Var("KDEC"), Lit(n \o ".0E-6"))],
         Times(n \o ".0D+9", Var("KRO2NO"), "KRO2NO"), Times(n \o ".0D+8", Var("KMT03"), "KMT03"),
         Times(n \o ".0E-18", Var("O2"), "O2")})
       \cup
       {[f |-> <<n \o ".5D-3", "*", "EXP(-" \o n \o "00/TEMP)">>,
         a |-> Op("*", Lit(n \o ".5D-3"), [o |-> "EXP", a |-> Op("/", [o |-> "neg", a |-> Lit(n \o "00")], Var("TEMP"))])],
        [f |-> <<"(", "TEMP", "/", "300.0", ")", "**", "3.5", "*", n \o ".0">>,
         a |-> Op("*", Op("**", Op("/", Var("TEMP"), Lit("300.0")), Lit("3.5")), Lit(n \o ".0"))],
        [f |-> <<JText(4), "*", n \o "0.0">>, a |-> Op("*", J(4), Lit(n \o "0.0"))],
        Times(n \o ".0D+4", J(1), JText(1)), Times(n \o ".0D+5", J(8), JText(8)), Times(n \o ".5D+4", J(13), JText(13)),
        Times(n \o ".5D-1", Var("RO2"), "RO2"), Times(n \o ".0E-17", Var("H2O"), "H2O"),
        Times(n \o ".0D+8", Var("KRO2HO2"), "KRO2HO2")}

VARIABLES text, body, done, lhs, rhs, phase, style, names, coef, nterm
vars == <<text, body, done, lhs, rhs, phase, style, names, coef, nterm>>

NoCoef == [t |-> "", c |-> 0]
Init == /\ done = <<>> /\ lhs = <<>> /\ rhs = <<>> /\ phase = "head" /\ text = ""
        /\ style \in LabelStyles /\ names \in NameSets /\ coef = NoCoef /\ nterm = 0 /\ body = 0

Begin == /\ phase = "head" /\ phase' = "label"
        /\ \E h \in Header : text' = h
        /\ UNCHANGED <<body, done, lhs, rhs, style, names, coef, nterm>>
Open == /\ phase = "label" /\ Len(done) < MaxRx
        /\ \E l \in Lead : text' = text \o "{" \o Label(style, Len(done) + 1) \o "}" \o l
        /\ body' = Len(text')
        /\ \E m \in 1..MaxL : nterm' = m
        /\ phase' = "lcoef" /\ lhs' = <<>> /\ rhs' = <<>> /\ coef' = NoCoef
        /\ UNCHANGED <<done, style, names>>
PickCoef(side) ==
  /\ \E class \in CoefClasses : \E f \in CoefForms(class) :
       /\ (side = "l" => f.c <= (IF MaxOrder > 5 THEN MaxOrder ELSE 3) * One)
       /\ coef' = f
       /\ text' = text \o f.t
RECURSIVE Orders(_, _)
Orders(ts, i) == IF i > Len(ts) THEN 0 ELSE (IF ts[i].n = "hv" THEN 0 ELSE ts[i].c) + Orders(ts, i + 1)

LCoef == /\ phase = "lcoef" /\ PickCoef("l") /\ Orders(lhs, 1) + coef'.c <= MaxOrder * One
         /\ phase' = "lname" /\ UNCHANGED <<body, done, lhs, rhs, style, names, nterm>>
LName == /\ phase = "lname"
         /\ \E s \in (IF coef.t = "" THEN {""} ELSE Sep) : \E n \in names :
              /\ text' = text \o s \o n
              /\ lhs' = Append(lhs, [c |-> coef.c, n |-> n])
         /\ phase' = "lnext" /\ UNCHANGED <<body, done, rhs, style, names, coef, nterm>>
LNext == /\ phase = "lnext" /\ Len(lhs) < nterm
         /\ \/ /\ Orders(lhs, 1) <= (MaxOrder - 3) * One
               /\ \E p \in Plus : text' = text \o p
               /\ phase' = "lcoef" /\ UNCHANGED lhs
            \/ /\ Photons /\ (\A i \in 1..Len(lhs) : lhs[i].n # "hv")
               /\ \E p \in Plus : text' = text \o p \o "hv"
               /\ lhs' = Append(lhs, [c |-> One, n |-> "hv"])
               /\ phase' = "lnext"
         /\ UNCHANGED <<body, done, rhs, style, names, coef, nterm>>
LEnd == /\ phase = "lnext" /\ (Len(lhs) >= nterm \/ Orders(lhs, 1) > (MaxOrder - 3) * One)
        /\ \E e \in Eq : text' = text \o e
        /\ \E m \in 0..MaxR : /\ nterm' = m
                              /\ phase' = IF m = 0 THEN "rend" ELSE "rcoef"
        /\ UNCHANGED <<body, done, lhs, rhs, style, names, coef>>
RCoef == /\ phase = "rcoef" /\ PickCoef("r")
         /\ phase' = "rname" /\ UNCHANGED <<body, done, lhs, rhs, style, names, nterm>>
RName == /\ phase = "rname"
         /\ \E s \in (IF coef.t = "" THEN {""} ELSE Sep) : \E n \in names :
              /\ text' = text \o s \o n
              /\ rhs' = Append(rhs, [c |-> coef.c, n |-> n])
         /\ phase' = "rnext" /\ UNCHANGED <<body, done, lhs, style, names, coef, nterm>>
RNext == /\ phase = "rnext" /\ Len(rhs) < nterm
         /\ \E p \in Plus : text' = text \o p
         /\ phase' = "rcoef" /\ UNCHANGED <<body, done, lhs, rhs, style, names, coef, nterm>>
REnd == /\ phase = "rnext" /\ Len(rhs) = nterm /\ phase' = "rend"
        /\ UNCHANGED <<body, text, done, lhs, rhs, style, names, coef, nterm>>
RECURSIVE Join(_, _, _)
Join(ts, g, i) == IF i = Len(ts) THEN ts[i] ELSE ts[i] \o g \o Join(ts, g, i + 1)
Close == /\ phase = "rend" /\ phase' = "label"
         /\ \E c \in Colon, s \in Stop, g \in Glue, f \in RateForms(Len(done) + 1) :
              /\ text' = text \o c \o Join(f.f, g, 1) \o s
              /\ done' = Append(done, [lhs |-> lhs, rhs |-> rhs, rate |-> Join(f.f, "", 1), a |-> f.a])
         /\ UNCHANGED <<body, lhs, rhs, style, names, coef, nterm>>
\* the same reaction, word for word, once more: it proceeds twice
Again == /\ phase = "label" /\ Len(done) > 0 /\ Len(done) < MaxRx
         /\ LET t == text \o "{" \o Label(style, Len(done) + 1) \o "}"
            IN text' = t \o SubSeq(text, body + 1, Len(text)) /\ body' = Len(t)
         /\ done' = Append(done, done[Len(done)])
         /\ UNCHANGED <<lhs, rhs, phase, style, names, coef, nterm>>
Finish == /\ phase = "label" /\ Len(done) >= MinRx /\ phase' = "done"
          /\ PrintT("GEN " \o ToJson([text |-> text, rx |-> done]))
          /\ UNCHANGED <<body, text, done, lhs, rhs, style, names, coef, nterm>>
Next == \/ Begin \/ Open \/ LCoef \/ LName \/ LNext \/ LEnd
        \/ RCoef \/ RName \/ RNext \/ REnd \/ Close \/ Again \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

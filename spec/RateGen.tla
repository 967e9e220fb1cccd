------------------------------ MODULE RateGen ------------------------------
(* Writes rate expressions in the supported MCM syntax together with the tree  *)
(* they denote.  A stack machine: push a leaf, combine the topmost entries,    *)
(* emit the expression when one entry is left.  An entry is                    *)
(*   t text, p precedence (0 sum, 1 product, 2 power, 3 atom), a tree,         *)
(*   k "lit"/"dbl", i integer-valued, m moderate in size, s strictly positive. *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS Ops,          \* operators and functions to use
          Leaves,       \* kinds of leaves
          MaxOps, MaxStack, MaxLen, NumExprs
VARIABLES stack, nops, out
vars == <<stack, nops, out>>

L(t) == [t |-> t, p |-> 3, a |-> [o |-> "lit", t |-> t], k |-> "lit", i |-> FALSE, m |-> FALSE, s |-> TRUE]
V(t) == [t |-> t, p |-> 3, a |-> [o |-> "var", t |-> t], k |-> "dbl", i |-> FALSE, m |-> FALSE, s |-> TRUE]
Wild == {"2.7E-12", "2.9D-12", "1.4D+3", "3.0D2", "5D-3", "2E-3", "1.25D0", "1.D-3", "6.0D-34", "7.5e-11",
         "1.6D+09", "4.70D-11", "1.2D05", "9.9D8", "2.0D10", "3.5D-09"}
Plain == {"0.5", "1.5", "12.5", "1.0", ".25", "3."}
Ints == {"1", "2", "3", "498"}
Names == {"KRO2NO", "KRO2HO2", "KAPHO2", "KAPNO", "KRO2NO3", "KNO3AL", "KDEC", "KROSEC", "KALKOXY", "KALKPXY",
  "KROPRIM", "KCH3O2", "K298CH3O2", "K14ISOM1", "KFPAN", "KBPAN", "KMT01", "KMT02", "KMT03", "KMT04", "KMT05",
  "KMT06", "KMT07", "KMT08", "KMT09", "KMT10", "KMT11", "KMT12", "KMT13", "KMT14", "KMT15", "KMT16", "KMT17",
  "KMT18", "M", "N2", "O2"}
JS == {1, 2, 4, 8, 11, 15, 24, 31, 34, 41, 51, 57, 61}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LeavesOf(kind) ==
  CASE kind = "wild" -> {L(t) : t \in Wild}
    [] kind = "plain" -> {[L(t) EXCEPT !.m = TRUE] : t \in Plain}
    [] kind = "int" -> {[L(t) EXCEPT !.i = TRUE] : t \in Ints}
    [] kind = "name" -> {V(t) : t \in Names}
    [] kind = "input" -> {[V("RO2") EXCEPT !.s = FALSE], [V("H2O") EXCEPT !.s = FALSE], V("TEMP")}
    [] kind = "J" -> {[t |-> "J(" \o ToString(n) \o ")", p |-> 3, a |-> [o |-> "J", n |-> n], k |-> "dbl",
                       i |-> FALSE, m |-> FALSE, s |-> FALSE] : n \in JS}
    [] kind = "overT" -> {[t |-> c \o "/TEMP", p |-> 1, k |-> "dbl", i |-> FALSE, m |-> TRUE, s |-> TRUE,
                           a |-> [o |-> "/", a |-> [o |-> "lit", t |-> c], b |-> [o |-> "var", t |-> "TEMP"]]]
                            : c \in {"500", "1160", "298.0", "1.3D3", "2.0E+2", "360."}}
    [] kind = "Tover" -> {[t |-> "TEMP/" \o c, p |-> 1, k |-> "dbl", i |-> FALSE, m |-> TRUE, s |-> TRUE,
                           a |-> [o |-> "/", a |-> [o |-> "var", t |-> "TEMP"], b |-> [o |-> "lit", t |-> c]]]
                            : c \in {"300", "300.0", "3.0D2", "204."}}
    [] kind = "number" -> {L(m \o e \o sg \o x) : m \in {"1", "2.9", "7.", "0.33", "64.25"}, e \in {"E", "D"}, sg \in {"", "+", "-"},
                              x \in Digits \cup {"0" \o d : d \in Digits} \cup {"1" \o d : d \in Digits} \cup {"21", "28", "34"}}
    [] kind = "fn" -> {[t |-> f \o "(" \o x.t \o ")", p |-> 3, k |-> "dbl", i |-> FALSE, m |-> FALSE, s |-> f = "EXP",
                        a |-> [o |-> f, a |-> x.a]] :
                           f \in {"EXP", "LOG", "SQRT", "ABS"},
                           x \in {[t |-> c \o "/TEMP", a |-> [o |-> "/", a |-> [o |-> "lit", t |-> c], b |-> [o |-> "var", t |-> "TEMP"]]] : c \in {"500", "3.D2"}}}
    [] OTHER -> {}
Par(x) == "(" \o x.t \o ")"
P(x, q) == IF x.p < q THEN Par(x) ELSE x.t
Top(n) == stack[Len(stack) - n]
Rest(n) == SubSeq(stack, 1, Len(stack) - n)

Push == /\ Len(stack) < MaxStack /\ nops + Len(stack) <= MaxOps
        /\ \E k \in Leaves : \E x \in LeavesOf(k) : stack' = Append(stack, x)
        /\ UNCHANGED <<nops, out>>
\* literals alone would be computed in single precision: only moderate ones are combined
Fine(x, y) == \/ x.k = "dbl" \/ y.k = "dbl" \/ (x.m /\ y.m)
Bin(o) ==
  /\ Len(stack) >= 2 /\ nops < MaxOps
  /\ LET x == Top(1) y == Top(0) IN
     /\ Fine(x, y)
     /\ o = "/" => y.s
     /\ LET q == IF o \in {"+", "-"} THEN 0 ELSE 1
            t == (IF x.p < q THEN Par(x) ELSE x.t) \o o \o (IF y.p <= q /\ ~(o = "+" /\ y.p = 0 /\ SubSeq(y.t, 1, 1) # "-") THEN Par(y) ELSE y.t)
            left == [o |-> o, a |-> x.a, b |-> y.a]
        IN /\ Len(t) <= MaxLen
           /\ stack' = Append(Rest(2), [t |-> t, p |-> q, a |-> left, i |-> FALSE,
                  k |-> IF x.k = "dbl" \/ y.k = "dbl" THEN "dbl" ELSE "lit",
                  m |-> x.m /\ y.m /\ o \in {"+", "-"} /\ nops < 3,
                  s |-> x.s /\ y.s /\ o # "-"])
  /\ nops' = nops + 1 /\ UNCHANGED out
Fun(f) ==
  /\ Len(stack) >= 1 /\ nops < MaxOps
  /\ LET x == Top(0)
         name == IF f = "DLOG" THEN "dlog" ELSE IF f = "DSQRT" THEN "dsqrt" ELSE IF f = "DABS" THEN "dabs" ELSE f
         op == CASE f = "DLOG" -> "LOG" [] f = "DSQRT" -> "SQRT" [] f = "DABS" -> "ABS" [] OTHER -> f
     IN /\ x.k = "dbl"
        /\ op = "EXP" => x.m
        /\ op \in {"LOG", "LOG10", "SQRT"} => x.s
        /\ LET t == name \o Par(x) IN
           /\ Len(t) <= MaxLen
           /\ stack' = Append(Rest(1), [t |-> t, p |-> 3, a |-> [o |-> op, a |-> x.a], k |-> "dbl", i |-> FALSE,
                  m |-> FALSE, s |-> op \in {"EXP", "SQRT"} \/ (op = "ABS" /\ x.s)])
  /\ nops' = nops + 1 /\ UNCHANGED out
Minus ==
  /\ Len(stack) >= 1 /\ nops < MaxOps /\ Top(0).p > 0
  /\ LET x == Top(0) IN
     stack' = Append(Rest(1), [x EXCEPT !.t = "-" \o x.t, !.p = 0, !.a = [o |-> "neg", a |-> x.a], !.s = FALSE])
  /\ nops' = nops + 1 /\ UNCHANGED out
Expos == {<<"0.5", FALSE>>, <<"2.0", FALSE>>, <<"2", FALSE>>, <<"1.5D0", FALSE>>, <<"2.6", TRUE>>, <<"0.9", TRUE>>, <<"3", TRUE>>}
Power ==
  /\ Len(stack) >= 1 /\ nops < MaxOps /\ Top(0).s /\ Top(0).k = "dbl"
  /\ \E e \in Expos, par \in BOOLEAN :
       LET x == Top(0)
           big == e[1] \in {"0.5", "1.5D0"} \/ x.m
           t == (IF x.p <= 2 THEN Par(x) ELSE x.t) \o "**" \o
                (IF e[2] THEN (IF par THEN "(-" \o e[1] \o ")" ELSE "-" \o e[1]) ELSE e[1])
           lit == [o |-> "lit", t |-> e[1]]
       IN /\ big /\ Len(t) <= MaxLen
          /\ stack' = Append(Rest(1), [t |-> t, p |-> 2, k |-> "dbl", i |-> FALSE, m |-> FALSE, s |-> TRUE,
                a |-> [o |-> "**", a |-> x.a, b |-> IF e[2] THEN [o |-> "neg", a |-> lit] ELSE lit]])
  /\ nops' = nops + 1 /\ UNCHANGED out
Emit == /\ Len(stack) = 1 /\ Len(out) < NumExprs /\ (nops >= 1 \/ MaxOps = 0)
        /\ out' = Append(out, [rate |-> stack[1].t, a |-> stack[1].a])
        /\ stack' = <<>> /\ nops' = 0
Discard == /\ nops + Len(stack) > MaxOps \/ Len(stack) = MaxStack
           /\ Len(stack) > 0 /\ stack' = <<>> /\ nops' = 0 /\ UNCHANGED out
Finish == /\ Len(out) = NumExprs /\ stack = <<>> /\ nops = 0
          /\ PrintT("GEN " \o ToJson(out)) /\ nops' = -1 /\ UNCHANGED <<stack, out>>
Init == stack = <<>> /\ nops = 0 /\ out = <<>>
Build ==
  \/ Push \/ Emit \/ Discard
  \/ "neg" \in Ops /\ Minus
  \/ "**" \in Ops /\ Power
  \/ \E o \in Ops \cap {"+", "-", "*", "/"} : Bin(o)
  \/ \E f \in Ops \cap {"EXP", "LOG", "LOG10", "SQRT", "ABS", "DLOG", "DSQRT", "DABS"} : Fun(f)
Next == \/ Finish
        \/ nops >= 0 /\ Len(out) < NumExprs /\ Build
Spec == Init /\ [][Next]_vars
=============================================================================

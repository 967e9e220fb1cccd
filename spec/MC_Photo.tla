------------------------------ MODULE MC_Photo ------------------------------
(* The photolysis rates of the specification over a clock that ticks through   *)
(* three days: they repeat daily, are never negative and vanish at night.      *)
EXTENDS Rates
VARIABLE tick                       \* quarters of an hour
Init == tick = 0
Next == tick < 288 /\ tick' = tick + 1
Spec == Init /\ [][Next]_tick
Time(k) == FMul("900.0", k)
JAt(k) == Photo(CosZenith(Time(k)))
Daily == \A n \in JNumbers : FClose(JAt(tick)[n].v, JAt(tick + 96)[n].v, "1.0E-9", 0)
NonNegative == \A n \in JNumbers : FLe("0.0", JAt(tick)[n].v)
Night == LET cz == CosZenith(Time(tick)) IN
  /\ FLt(cz.v, FNeg(cz.e)) => \A n \in JNumbers : FEq(JAt(tick)[n].v, 0)
  /\ FLt(cz.e, cz.v) => \A n \in JNumbers : FLt("0.0", JAt(tick)[n].v) \/ FLt(cz.v, "0.01")
  /\ tick % 96 \in 0..10 => FLt(cz.v, "0.0")          \* the hours after midnight are dark
  /\ tick % 96 \in 40..56 => FLt("0.5", cz.v)         \* noon is bright
=============================================================================

------------------------------- MODULE SelGen -------------------------------
(* Species sets for the property calculation, one choice per step; the cut-off *)
(* may fall exactly on a species' vapour pressure.                             *)
EXTENDS Selection, TLC, Json
CONSTANTS Pool, MaxSp, MinSp
Bps == {"320.5", "411.25", "655.0"}
Vps == {"-14.75", "-9.5", "-6.25", "-5.875", "-2.0", "0.125", "3.25"}
VARIABLES u, ph
vars == <<u, ph>>
Init == u = <<>> /\ ph = "config"
Config == /\ ph = "config"
          /\ \E v \in {"nannoolal", "myrdal_and_yalkowsky", "evaporation"}, b \in {"joback_and_reid", "stein_and_brown", "nannoolal"},
               c \in {"nannoolal", "joback_and_reid"}, d \in {"girolami", "schroeder", "le_bas", "tyn_and_calus"},
               T \in {"298.15", "288.15", "310.5", "250.276", "273.653", "335.7482"}, dr \in BOOLEAN :
               u' = [order |-> <<>>, data |-> <<>>, vp |-> v, bp |-> b, critical |-> c, density |-> d, T |-> T, drop |-> dr, cutoff |-> "-6.0"]
          /\ ph' = "species"
Room == Len(u.order) < MaxSp /\ Pool \ {u.order[i] : i \in 1..Len(u.order)} # {}
Unknown == /\ ph = "species" /\ Room
           /\ \E s \in Pool \ {u.order[i] : i \in 1..Len(u.order)} : u' = [u EXCEPT !.order = Append(@, s)]
           /\ ph' = ph
\* one species with its properties, chosen one property per step
Species == /\ ph = "species" /\ Room
           /\ \E s \in Pool \ {u.order[i] : i \in 1..Len(u.order)}, mw \in {"46.0307", "92.09", "168.25", "232.1", "18.6", "471.5"} :
                u' = [u EXCEPT !.order = Append(@, s), !.data = (s :> [mw |-> mw]) @@ @]
           /\ ph' = "vps"
Last == u.order[Len(u.order)]
GiveVps == /\ ph = "vps" /\ ph' = "bps"
          /\ \E v1 \in Vps, v2 \in Vps :
               u' = [u EXCEPT !.data[Last] = [vp |-> [nannoolal |-> v1, myrdal_and_yalkowsky |-> v2, evaporation |-> FSub(v1, "1.5")]] @@ @]
GiveBps == /\ ph = "bps" /\ ph' = "species"
           /\ \E b1 \in Bps, b2 \in Bps, C \in {"1", "5", "10"}, O \in {"0", "3"} :
               u' = [u EXCEPT !.data[Last] = [C |-> C, O |-> O, H |-> "8",
                          bp |-> [nannoolal |-> b1, joback_and_reid |-> b2, stein_and_brown |-> FAdd(b1, "17.5")],
                          crit |-> [nannoolal |-> FMul(b1, "1.5"), joback_and_reid |-> FAdd(b2, "200.0")],
                          dens |-> [girolami |-> FDiv(u.data[Last].mw, "140.0"), schroeder |-> "1.21", le_bas |-> FDiv(b2, "300.0"), tyn_and_calus |-> "0.93"]] @@ @]
Cut == /\ ph = "species" /\ Len(u.order) >= MinSp
       /\ \/ UNCHANGED u
          \/ \E x \in {"-12.5", "-0.25", "1.5", "-20.0", "-8.375"} : u' = [u EXCEPT !.cutoff = x]
          \/ \E s \in DOMAIN u.data : u' = [u EXCEPT !.cutoff = Properties(u, s).vp]
       /\ ph' = "emit"
Emit == ph = "emit" /\ ph' = "done" /\ PrintT("GEN " \o ToJson(u)) /\ UNCHANGED u
Next == Config \/ Unknown \/ Species \/ GiveVps \/ GiveBps \/ Cut \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================

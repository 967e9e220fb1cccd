------------------------------- MODULE DrvGen -------------------------------
(* Settings for the driver scripts: compounds and methods as in SelGen, then   *)
(* conditions, population and (for the fixed-yield driver) a snapshot.         *)
EXTENDS SelGen
CONSTANTS MaxBins, MaxLines
VARIABLES st
dvars == <<u, ph, st>>
DInit == Init /\ st = <<>>
Compounds == (Config \/ Unknown \/ Species \/ GiveVps \/ GiveBps) /\ UNCHANGED st
Conditions == /\ ph = "emit" /\ ph' = "population" /\ UNCHANGED u
              /\ \E rh \in {"0.5", "0.0523", "0.9317", "0.72", "0.985", "0.0"}, h \in {"12.0", "0.0", "23.7519", "6.504", "30.25"}, a \in {"18.0", "0.0", "61.25371", "4.21E-7"}, b \in {"30.0", "0.03517", "2.5E-9"} :
                   st' = [RH |-> rh, hour |-> h, o3 |-> a, apinene |-> b]
Populate == /\ ph = "population" /\ ph' = "material" /\ UNCHANGED u
            /\ \E n \in (1..MaxBins) \cup {12, 18}, t \in {"100.0", "850.0", "12.5034"}, s \in {"2.2", "1.7031"}, m \in {"0.2", "0.07013"},
                 r \in {<<"0.01", "1.0">>, <<"0.03307", "0.4061">>, <<"0.05", "2.5">>}, v \in {"30.0", "4.50271"} :
                 st' = [bins |-> n, total |-> t, std |-> s, mean |-> m, lo |-> r[1], hi |-> r[2], voc |-> v, lines |-> <<>>] @@ st
\* what the particles' cores are made of
Material == /\ ph = "material" /\ ph' = "snapshot" /\ UNCHANGED u
            /\ \E m \in {<<"1770.0", "132.14", "3.0">>, <<"2165.0", "58.44", "2.0">>, <<"1400.0", "200.5", "1.0">>, <<"1725.0", "80.043", "2.5">>},
                 t \in {"0.072", "0.05"} :
                 st' = [rhocore |-> m[1], mwcore |-> m[2], diss |-> m[3], sigma |-> t] @@ st
Snapshot == /\ ph = "snapshot" /\ Len(st.lines) < MaxLines /\ DOMAIN u.data # {}
            /\ \E n \in DOMAIN u.data, c \in {"0.35051", "1.5E-3", "0.0", "12", "7.25", "3e-2"} :
                 st' = [st EXCEPT !.lines = Append(@, [n |-> n, c |-> c])]
            /\ UNCHANGED <<u, ph>>
Last1 == /\ ph = "snapshot" /\ (Len(st.lines) = MaxLines \/ DOMAIN u.data = {}) /\ ph' = "done"
         /\ PrintT("GEN " \o ToJson([sel |-> u] @@ st)) /\ UNCHANGED <<u, st>>
DNext == Compounds \/ (Cut /\ UNCHANGED st) \/ Conditions \/ Populate \/ Material \/ Snapshot \/ Last1
DSpec == DInit /\ [][DNext]_dvars
=============================================================================

------------------------------ MODULE PartGen -------------------------------
(* Set-ups of the partitioning step and states to evaluate it at, one choice   *)
(* per step.  The gas phase is placed relative to the equilibrium that module  *)
(* Partition gives for some bin: below it, at it, above it, by little or much. *)
EXTENDS Partition, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS MinSp, MaxSp, MinBins, MaxBins, MaxStates
VARIABLES p, ph, cond, gas, states
vars == <<p, ph, cond, gas, states>>
Init == p = <<>> /\ ph = "layout" /\ cond = <<>> /\ gas = <<>> /\ states = <<>>
Layout == /\ ph = "layout"
          /\ \E n \in MinSp..MaxSp, b \in MinBins..MaxBins, T \in {"298.15", "243.5", "318.0"}, s \in {"0.072", "0.03", "0.0"}, d \in {"1.0", "2.0", "3.0"} :
               p' = [nsp |-> n, nb |-> b, T |-> T, sigma |-> s, diss |-> d, NA |-> "6.0221409E23", R |-> "8.3144598",
                     mw |-> <<>>, rho |-> <<>>, psat |-> <<>>, D |-> <<>>, alpha |-> <<>>, gamma |-> <<>>,
                     N |-> <<>>, core |-> <<>>, rhocore |-> <<>>, mwcore |-> <<>>]
          /\ ph' = "inc" /\ UNCHANGED <<cond, gas, states>>
\* any set of condensing compounds (of many: all but two at most), in increasing order,
\* water (the last) always among them
Sets(n) == IF n < 16 THEN SUBSET (0..(n - 2)) ELSE {(0..(n - 2)) \ {a, b} : a, b \in 0..n}
Inc == /\ ph = "inc"
       /\ \E S \in Sets(p.nsp) :
            p' = [nc |-> Cardinality(S) + 1,
                  inc |-> SetToSortSeq(S, <) \o <<p.nsp - 1>>] @@ p
       /\ ph' = "mw" /\ UNCHANGED <<cond, gas, states>>
Mw == /\ ph = "mw"
      /\ \E m \in {"46.0", "90.03", "136.24", "184.2", "250.5", "331.7", "402.1"}, r \in {"850.0", "1210.5", "1400.0", "1790.3"},
            v \in {"-15.2", "-11.7", "-9.4", "-7.1", "-4.3", "-1.5", "0.2"} :
           LET w == Len(p.mw) + 1 = p.nc IN
           p' = [p EXCEPT !.mw = Append(@, IF w THEN "18.0" ELSE m), !.rho = Append(@, IF w THEN "1000.0" ELSE r),
                          !.psat = Append(@, IF w THEN WaterPsat(p.T) ELSE v)]
      /\ ph' = (IF Len(p.mw) + 1 = p.nc THEN "diff" ELSE "mw") /\ UNCHANGED <<cond, gas, states>>
Diff == /\ ph = "diff"
        /\ \E d \in {"0.042", "0.081", "0.2766", "1.3"}, a \in {"1.0", "0.1", "0.5", "0.013"}, g \in {"9.7E-9", "4.3E-8", "1.1E-7", "2.0E-6"} :
             p' = [p EXCEPT !.D = Append(@, d), !.alpha = Append(@, a), !.gamma = Append(@, g)]
        /\ ph' = (IF Len(p.D) + 1 = p.nc THEN "bin" ELSE "diff") /\ UNCHANGED <<cond, gas, states>>
Bins == /\ ph = "bin"
        /\ \E n \in {"0.37", "12.5", "183.0", "950.0"}, c \in {"3.0E2", "2.0E4", "7.0E5", "3.0E7", "1.0E9", "6.0E11"},
              r \in {"1770.0", "2160.0", "1250.0"}, m \in {"132.14", "58.44"} :
             p' = [p EXCEPT !.N = Append(@, n), !.core = Append(@, FMul(n, c)), !.rhocore = Append(@, r), !.mwcore = Append(@, m)]
        /\ ph' = (IF Len(p.N) + 1 = p.nb THEN "slots" ELSE "bin") /\ UNCHANGED <<cond, gas, states>>
\* condensed amounts, from none to overwhelming, relative to the core
Slots == /\ ph = "slots"
         /\ LET b == (Len(cond) \div p.nc) + 1 IN
            \E f \in {"0.0", "1.0E-7", "0.013", "0.9", "41.0", "2.6E3"} : cond' = Append(cond, FMul(p.core[b], f))
         /\ ph' = (IF Len(cond) + 1 = p.nc * p.nb THEN "gas" ELSE "slots") /\ UNCHANGED <<p, gas, states>>
Gas == /\ ph = "gas"
       /\ LET g == Len(gas)
              y == [s \in 1..p.nsp |-> "0.0"] \o cond
          IN \E b \in 1..p.nb, f \in {"0.0", "0.31", "0.9999", "1.0", "1.0001", "3.7", "5.2E4"} :
               gas' = Append(gas,
                 IF Condenses(p, g)
                 THEN LET i == CHOOSE i \in 1..p.nc : p.inc[i] = g
                          c == CEq(p, y, Bin(p, y, b), i)
                      IN IF FEq(c, 0) \/ ~FIsNum(c) THEN FMul("1.0E7", f) ELSE FMul(c, f)
                 ELSE FMul("3.3E8", f))
       /\ ph' = (IF Len(gas) + 1 = p.nsp THEN "keep" ELSE "gas") /\ UNCHANGED <<p, cond, states>>
Keep == /\ ph = "keep" /\ states' = Append(states, gas \o cond)
        /\ gas' = <<>> /\ cond' = <<>>
        /\ ph' = (IF Len(states) + 1 = MaxStates THEN "emit" ELSE "slots") /\ UNCHANGED p
Emit == /\ ph = "emit" /\ ph' = "done" /\ PrintT("GEN " \o ToJson([p |-> p, states |-> states])) /\ UNCHANGED <<p, cond, gas, states>>
Next == Layout \/ Inc \/ Mw \/ Diff \/ Bins \/ Slots \/ Gas \/ Keep \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================

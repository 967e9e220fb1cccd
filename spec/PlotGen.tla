------------------------------ MODULE PlotGen -------------------------------
(* Snapshots to draw: particle populations whose gas phase holds the same      *)
(* compounds as the particles, and states with little, much, none and less     *)
(* than none of them.  The invariants say that the stacks tile the unit.       *)
EXTENDS Plots, TLC, Json
CONSTANTS MaxNc, MaxBins, MaxSnaps, Amounts, Mws
VARIABLES p, y, snaps, ph
vars == <<p, y, snaps, ph>>
Init == p = <<>> /\ y = <<>> /\ snaps = <<>> /\ ph = "layout"
Layout == /\ ph = "layout"
          /\ \E n \in 1..MaxNc, b \in 1..MaxBins :
               p' = [nsp |-> n, nc |-> n, nb |-> b, mw |-> <<>>, NA |-> "6.0221409E23"]
          /\ ph' = "mw" /\ UNCHANGED <<y, snaps>>
Mw == /\ ph = "mw"
      /\ \E m \in Mws : p' = [p EXCEPT !.mw = Append(@, IF Len(@) + 1 = p.nc THEN "18.0" ELSE m)]
      /\ ph' = (IF Len(p.mw) + 1 = p.nc THEN "state" ELSE "mw") /\ UNCHANGED <<y, snaps>>
Fill == /\ ph = "state"
        /\ \E a \in Amounts : y' = Append(y, a)
        /\ ph' = (IF Len(y) + 1 = Total(p) THEN "keep" ELSE "state") /\ UNCHANGED <<p, snaps>>
Keep == /\ ph = "keep" /\ snaps' = Append(snaps, y) /\ y' = <<>>
        /\ \/ ph' = "emit" \/ (Len(snaps) + 1 < MaxSnaps /\ ph' = "state")
        /\ UNCHANGED p
Emit == /\ ph = "emit" /\ ph' = "done" /\ PrintT("GEN " \o ToJson([p |-> p, snaps |-> snaps])) /\ UNCHANGED <<p, y, snaps>>
Next == Layout \/ Mw \/ Fill \/ Keep \/ Emit
Spec == Init /\ [][Next]_vars
Drawn == ph = "keep"
Tiled == Drawn => \A b \in 1..p.nb : ~Empty(p, y, b) =>
           /\ FClose(FSum([i \in Organics(p) |-> Share(p, y, b, i)]), "1.0", "1.0E-12", 0)
           /\ \A i \in Organics(p) : FLe("0.0", Share(p, y, b, i)) /\ FLe(Top(p, y, b, i), "1.000000000001")
           /\ \A i \in Organics(p) : i > 1 => FClose(Bottom(p, y, b, i), Top(p, y, b, i - 1), "1.0E-12", "1.0")
\* what is drawn tells the state's organic masses apart: the ideal drawing is accepted, a shifted one is not
Ideal(b0) == LET bs == [k \in 1..(p.nb * (p.nc - 1)) |->
                          LET b == ((k - 1) \div (p.nc - 1)) + 1 i == ((k - 1) % (p.nc - 1)) + 1
                          IN <<b - 1, Bottom(p, y, b, i), FAdd(Share(p, y, b, i), IF i = 1 THEN b0 ELSE "0.0")>>] IN bs
Accepted == Drawn /\ p.nc > 1 => \A b \in 1..p.nb : BinDrawn(p, y, Ideal("0.0"), b)
Rejected == Drawn /\ p.nc > 1 => \A b \in 1..p.nb : Empty(p, y, b) \/ ~BinDrawn(p, y, Ideal("0.1"), b)
WaterUnseen == Drawn => \A b \in 1..p.nb : LET z == [y EXCEPT ![Slot(p, b, p.nc)] = "9.9E15"] IN ShownMass(p, z) = ShownMass(p, y)
GasUnseen == Drawn => LET z == [s \in 1..Len(y) |-> IF s <= p.nsp THEN "8.8E15" ELSE y[s]] IN ShownMass(p, z) = ShownMass(p, y)
=============================================================================

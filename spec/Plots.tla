------------------------------- MODULE Plots -------------------------------
(* What the figures of a run must show.                                        *)
(* Contribution plot of a state y of a particle population p (see Partition):  *)
(* at each size bin a stack of bars, one per condensed compound except water,  *)
(* each as high as the compound's share of the bin's organic mass and standing *)
(* on the one before; amounts below zero count as none.                        *)
(* Gas plot: curves of log10 concentrations; aerosol plot: organic mass.       *)
EXTENDS Partition
Organics(p) == 1..(p.nc - 1)
Amount(p, y, b, i) == FMax(Mass(p, y, b, i), "0.0")
BinMass(p, y, b) == FSum([i \in Organics(p) |-> Amount(p, y, b, i)])
Share(p, y, b, i) == FDiv(Amount(p, y, b, i), BinMass(p, y, b))
Bottom(p, y, b, i) == FSum([m \in 1..(i - 1) |-> Share(p, y, b, m)])
Top(p, y, b, i) == FAdd(Bottom(p, y, b, i), Share(p, y, b, i))
Empty(p, y, b) == ~FLt("0.0", BinMass(p, y, b))
\* the organic mass a contribution plot states [micrograms/m3]
ShownMass(p, y) == FMul("1.0E12", FSum([b \in 1..p.nb |-> BinMass(p, y, b)]))

\* bars: <<bin (0-based), bottom, height>>
Atol == "1.0E-7"
Seen == "1.0E-6"
NearBy(a, b) == FIsNum(a) /\ FIsNum(b) /\ FLe(FAbs(FSub(a, b)), Atol)
BarsAt(bars, b) == {k \in 1..Len(bars) : FEq(bars[k][1], b - 1)}
Visible(bars, k) == FIsNum(bars[k][3]) /\ FLt(Seen, FAbs(bars[k][3]))
BinDrawn(p, y, bars, b) ==
  LET vis == {k \in BarsAt(bars, b) : Visible(bars, k)} IN
  IF Empty(p, y, b) THEN vis = {}
  ELSE LET big == {i \in Organics(p) : FLt(Seen, Share(p, y, b, i))}
           Is(k, i) == NearBy(bars[k][2], Bottom(p, y, b, i)) /\ NearBy(bars[k][3], Share(p, y, b, i))
       IN /\ \A i \in big : \E k \in vis : Is(k, i)
          /\ \A k \in vis : \E i \in Organics(p) : Is(k, i)
          /\ Cardinality(vis) <= p.nc - 1
Elsewhere(p, bars) == {k \in 1..Len(bars) : Visible(bars, k) /\ \A b \in 1..p.nb : ~FEq(bars[k][1], b - 1)}
\* the stated mass is rounded to two digits after the point
StatesMass(p, y, v) == FIsNum(v) /\ FLe(FAbs(FSub(v, ShownMass(p, y))), FAdd("0.0051", FMul("1.0E-9", ShownMass(p, y))))

\* a curve of logarithms: nothing to see where there is nothing
LogPoint(v, c) == IF FLt("0.0", c) THEN FClose(v, FLog10(c), "1.0E-9", "1.0") ELSE ~FIsNum(v)
=============================================================================

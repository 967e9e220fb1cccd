------------------------------ MODULE RateConv ------------------------------
(* The life of a table of rate expressions: parsed, converted for Fortran any  *)
(* number of times, converted for Numba; code is generated from what the       *)
(* conversions left.  Conversions must not change what the table means, so     *)
(* `meaning` is constant; the printed histories are replayed on the real code. *)
EXTENDS Integers, Sequences, TLC
CONSTANT MaxConv
VARIABLES hist, meaning
vars == <<hist, meaning>>
Init == hist = <<>> /\ meaning = "as written"
Numbaed == Len(hist) > 0 /\ hist[Len(hist)] = "N"
Convert(b) == /\ Len(hist) < MaxConv /\ ~Numbaed
              /\ hist' = Append(hist, b) /\ UNCHANGED meaning
              /\ PrintT("HIST " \o ToString(hist'))
Next == Convert("F") \/ Convert("N")
Spec == Init /\ [][Next]_vars
Preserved == meaning = "as written"
=============================================================================

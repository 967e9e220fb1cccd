----------------------------- MODULE Lifecycle -----------------------------
(* One directory over time.  Mechanism files are edited; a fresh run of a      *)
(* mechanism clears what earlier runs left, parses the file, saves its         *)
(* dictionaries under the mechanism's name and generates code under names all  *)
(* mechanisms share; a re-using run takes the dictionaries of its mechanism    *)
(* and whatever code is there.                                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, MaxRuns, Cleans      \* Cleans: fresh runs clear the dictionaries of other mechanisms
VARIABLES
  src,      \* version of each mechanism's file
  dicts,    \* version the saved dictionaries of each mechanism come from, 0: none
  code,     \* mechanism and version the generated code comes from
  last,     \* version each mechanism was last generated from
  by,       \* the run that generated it
  hist      \* the runs so far
vars == <<src, dicts, code, last, by, hist>>
Init == /\ src = [n \in Names |-> 1] /\ dicts = [n \in Names |-> 0] /\ code = <<"", 0>>
        /\ last = [n \in Names |-> 0] /\ by = [n \in Names |-> 0] /\ hist = <<>>
\* a run, possibly after an edit of its mechanism file
Fresh(n, edited) ==
  LET v == IF edited THEN src[n] + 1 ELSE src[n] IN
  /\ Len(hist) < MaxRuns
  /\ src' = [src EXCEPT ![n] = v]
  /\ dicts' = [m \in Names |-> IF m = n THEN v ELSE IF Cleans THEN 0 ELSE dicts[m]]
  /\ code' = <<n, v>> /\ last' = [last EXCEPT ![n] = v] /\ by' = [by EXCEPT ![n] = Len(hist) + 1]
  /\ hist' = Append(hist, [name |-> n, mode |-> "fresh", edited |-> edited, source |-> v, refused |-> FALSE,
                           numbering |-> <<n, v>>, code |-> <<n, v>>, expect |-> v, by |-> Len(hist) + 1])
Reuse(n, edited) ==
  LET v == IF edited THEN src[n] + 1 ELSE src[n] IN
  /\ Len(hist) < MaxRuns /\ last[n] > 0
  /\ src' = [src EXCEPT ![n] = v]
  /\ hist' = Append(hist, [name |-> n, mode |-> "reuse", edited |-> edited, source |-> v, refused |-> dicts[n] = 0,
                           numbering |-> <<n, dicts[n]>>, code |-> code, expect |-> last[n], by |-> by[n]])
  /\ UNCHANGED <<dicts, code, last, by>>
Next == \E n \in Names, e \in BOOLEAN : Fresh(n, e) \/ Reuse(n, e)
Spec == Init /\ [][Next]_vars
\* numbering and code of a run that gets to the solver belong together, and to the mechanism as last generated
Together == \A i \in 1..Len(hist) : ~hist[i].refused => hist[i].numbering = hist[i].code
Current == \A i \in 1..Len(hist) : ~hist[i].refused =>
             hist[i].numbering = <<hist[i].name, hist[i].expect>> /\ hist[hist[i].by].source = hist[i].expect
\* re-using straight after generating works
Usable == \A i \in 2..Len(hist) : (hist[i].mode = "reuse" /\ hist[i].by = i - 1) => ~hist[i].refused
Emit == (Len(hist) = MaxRuns => PrintT("GEN " \o ToJson(hist))) /\ TRUE
=============================================================================

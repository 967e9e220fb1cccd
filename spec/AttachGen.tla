------------------------------ MODULE AttachGen -----------------------------
(* Species databases and snapshots to read.  A database holds at most one      *)
(* entry per name, in any order, for the mechanism's species and others; an    *)
(* entry may lack its SMILES (no element, an empty one).  The sizes are chosen *)
(* first, so that a random walk fills them.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pool, Smiles, MaxSp, MaxDb, MaxLines
VARIABLES species, db, lines, size, ph
vars == <<species, db, lines, size, ph>>
Missing == {"empty", "absent", "other"}
Init == species = <<>> /\ db = <<>> /\ lines = <<>> /\ size = <<>> /\ ph = "size"
Size == /\ ph = "size" /\ ph' = "fill"
        /\ \E a \in 1..MaxSp, b \in 0..MaxDb, c \in 1..MaxLines : size' = <<a, b, c>>
        /\ UNCHANGED <<species, db, lines>>
Sp == /\ ph = "fill" /\ Len(species) < size[1]
      /\ \E s \in Pool : (\A i \in 1..Len(species) : species[i] # s) /\ species' = Append(species, s)
      /\ UNCHANGED <<db, lines, size, ph>>
Entry == /\ ph = "fill" /\ Len(species) = size[1] /\ Len(db) < size[2]
         /\ \E n \in Pool \cup {"OH", "HO2", "O3"}, s \in Smiles \cup Missing :
              /\ \A i \in 1..Len(db) : db[i].n # n
              /\ db' = Append(db, [n |-> n, s |-> IF s \in Missing THEN "" ELSE s, miss |-> IF s \in Missing THEN s ELSE ""])
         /\ UNCHANGED <<species, lines, size, ph>>
Line == /\ ph = "fill" /\ Len(species) = size[1] /\ Len(db) = size[2] /\ Len(lines) < size[3]
        /\ \E s \in Smiles, c \in {"0.35051", "1.5E-3", "0.0", "12", "7.25", "3e-2"} : lines' = Append(lines, [n |-> s, c |-> c])
        /\ UNCHANGED <<species, db, size, ph>>
Emit == /\ ph = "fill" /\ Len(species) = size[1] /\ Len(db) = size[2] /\ Len(lines) = size[3] /\ ph' = "done"
        /\ PrintT("GEN " \o ToJson([species |-> species, db |-> db, lines |-> lines])) /\ UNCHANGED <<species, db, lines, size>>
Spec == Init /\ [][Size \/ Sp \/ Entry \/ Line \/ Emit]_vars
=============================================================================

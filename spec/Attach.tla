------------------------------- MODULE Attach -------------------------------
(* Structures from a species database, compounds from a snapshot file.         *)
EXTENDS Integers, Sequences, FiniteSets
NoStructure == {"OH", "HO2", "O3", "hv"}
\* a database is a sequence of entries [n |-> name, s |-> SMILES or ""]
Structures(species, db) ==
  {<<db[i].n, db[i].s>> : i \in {i \in 1..Len(db) :
      /\ db[i].s # "" /\ db[i].n \notin NoStructure
      /\ \E k \in 1..Len(species) : species[k] = db[i].n}}
\* a snapshot is a sequence of lines [n |-> SMILES, c |-> concentration]; the first line of a compound counts
RECURSIVE Compounds(_)
Compounds(lines) ==
  IF lines = <<>> THEN <<>>
  ELSE LET r == Compounds(SubSeq(lines, 1, Len(lines) - 1))
           x == lines[Len(lines)]
       IN IF \E k \in 1..Len(r) : r[k].n = x.n THEN r ELSE Append(r, x)
=============================================================================

-------------------------------- MODULE Omp ---------------------------------
(* A parallel region as generated code uses it.  A program is a sequence of    *)
(* units (SINGLE sections without barrier in between, or chunks of a parallel  *)
(* loop); a unit is a sequence of assignments.  Threads walk through the       *)
(* units; in mode "single" the first thread to reach a unit takes it and the   *)
(* others pass, in mode "loop" every unit has its owner from the start.  An    *)
(* assignment reads its operands and writes its result in two separate steps.  *)
(* PRIVATE locations exist once per thread and begin undefined.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Reads(u) == UNION {u[i].r : i \in 1..Len(u)}
Writes(u) == {u[i].w : i \in 1..Len(u)}
\* two units may run at the same time without affecting each other or anybody's result
NoConflict(r1, w1, r2, w2) == w1 \cap (r2 \cup w2) = {} /\ w2 \cap r1 = {}
RaceFree(prog, private) ==
  \A i, j \in 1..Len(prog) : i < j =>
    NoConflict(Reads(prog[i]) \ private, Writes(prog[i]) \ private,
               Reads(prog[j]) \ private, Writes(prog[j]) \ private)
\* a unit never reads a private location it has not written itself
Defined(prog, private) ==
  \A k \in 1..Len(prog) : \A i \in 1..Len(prog[k]) :
    \A x \in prog[k][i].r \cap private : \E j \in 1..(i - 1) : prog[k][j].w = x

VARIABLES
  prog, private, mode, owner,
  pos,      \* thread -> the unit it is at (Len(prog)+1: at the end)
  taker,    \* unit -> thread that took it, 0 if none yet
  pc,       \* thread -> <<assignment, "r" or "w">> inside a unit, <<0, "-">> outside
  reg,      \* thread -> operands read
  mem,      \* location -> value of the shared copy
  own,      \* thread -> location -> value of the private copy
  runs      \* unit -> how often it was run
ompVars == <<prog, private, mode, owner, pos, taker, pc, reg, mem, own, runs>>
fixed == <<prog, private, mode, owner>>

Val(k, i, ops) == <<k, i, ops>>      \* the value assignment i of unit k makes of its operands
RECURSIVE SeqMem(_, _, _, _)
SeqMem(p, k, i, m) ==                \* the memory the sequential code leaves
  IF k > Len(p) THEN m
  ELSE IF i > Len(p[k]) THEN SeqMem(p, k + 1, 1, m)
  ELSE SeqMem(p, k, i + 1, [m EXCEPT ![p[k][i].w] = Val(k, i, [x \in p[k][i].r |-> m[x]])])

At(t, x) == IF x \in private THEN own[t][x] ELSE mem[x]
Take(t) ==
  /\ pos[t] <= Len(prog) /\ pc[t][1] = 0
  /\ IF mode = "single" THEN taker[pos[t]] = 0 ELSE owner[pos[t]] = t
  /\ taker' = [taker EXCEPT ![pos[t]] = t]
  /\ runs' = [runs EXCEPT ![pos[t]] = @ + 1]
  /\ pc' = [pc EXCEPT ![t] = <<1, "r">>]
  /\ UNCHANGED <<prog, private, mode, owner, pos, reg, mem, own>>
Pass(t) ==
  /\ pos[t] <= Len(prog) /\ pc[t][1] = 0
  /\ IF mode = "single" THEN taker[pos[t]] # 0 ELSE owner[pos[t]] # t
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<prog, private, mode, owner, taker, pc, reg, mem, own, runs>>
Read(t) ==
  /\ pc[t][2] = "r" /\ pc[t][1] <= Len(prog[pos[t]])
  /\ reg' = [reg EXCEPT ![t] = [x \in prog[pos[t]][pc[t][1]].r |-> At(t, x)]]
  /\ pc' = [pc EXCEPT ![t] = <<@[1], "w">>]
  /\ UNCHANGED <<prog, private, mode, owner, pos, taker, mem, own, runs>>
Write(t) ==
  /\ pc[t][2] = "w"
  /\ LET s == prog[pos[t]][pc[t][1]]
         v == Val(pos[t], pc[t][1], reg[t])
     IN IF s.w \in private THEN own' = [own EXCEPT ![t][s.w] = v] /\ UNCHANGED mem
        ELSE mem' = [mem EXCEPT ![s.w] = v] /\ UNCHANGED own
  /\ pc' = [pc EXCEPT ![t] = <<@[1] + 1, "r">>]
  /\ UNCHANGED <<prog, private, mode, owner, pos, taker, reg, runs>>
Leave(t) ==
  /\ pc[t][2] = "r" /\ pc[t][1] > Len(prog[pos[t]])
  /\ pc' = [pc EXCEPT ![t] = <<0, "-">>]
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<prog, private, mode, owner, taker, reg, mem, own, runs>>
Move(t) == Take(t) \/ Pass(t) \/ Read(t) \/ Write(t) \/ Leave(t)
Over(T) == \A t \in T : pos[t] > Len(prog)
=============================================================================

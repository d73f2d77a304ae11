----------------------------- MODULE MC_Parallel -----------------------------
(***************************************************************************)
(* Why one observed execution of a parallel loop decides all of them.      *)
(*                                                                         *)
(* Threads 1..Threads each run a program of Steps steps over shared cells  *)
(* and an own register.  A step reads a cell into the register, writes the *)
(* register and the thread's name to a cell, adds to a cell (a read and a  *)
(* write, not atomic), or writes a cell that depends on the register, so   *)
(* that what a thread touches can depend on what it has read.  Every       *)
(* program and every interleaving is explored.                             *)
(*                                                                         *)
(* Decided: if the whole-thread-at-a-time execution in some order touches  *)
(* every cell privately (Parallel!Private), then every interleaving ends   *)
(* with the cells and registers of that execution.                         *)
(* With Rule = "writes" only overlapping writes are forbidden, with        *)
(* Rule = "none" nothing is: TLC refutes both.                             *)
(***************************************************************************)
EXTENDS Parallel, FiniteSets, TLC
CONSTANTS Threads, Steps, Cells, Rule
ASSUME Threads \in 2..3 /\ Steps \in 1..3
T == 1..Threads
C == 0..(Cells - 1)
Code == {<<"read", c>> : c \in C} \cup {<<"write", c>> : c \in C} \cup {<<"add", c>> : c \in C} \cup {<<"pick", 0>>}
VARIABLES prog, pc, reg, mem, half
vars == <<prog, pc, reg, mem, half>>

Start == [m |-> [c \in C |-> c], g |-> [t \in T |-> 10 * t]]
Bound(n) == n % 40
\* What a step writes where
Target(st, g) == IF st[1] = "pick" THEN g % Cells ELSE st[2]

(* One thread at a time *)
RECURSIVE RunThread(_, _, _)
\* s: memory, registers, cells read and written per thread
RunThread(t, i, s) ==
  IF i > Steps THEN s
  ELSE LET st == prog[t][i]
           c == Target(st, s.g[t])
           rd == st[1] \in {"read", "add"}
           wr == st[1] \in {"write", "add", "pick"}
           g == IF st[1] = "read" THEN s.m[c] ELSE s.g[t]
           v == IF st[1] = "add" THEN Bound(s.m[c] + t) ELSE Bound(s.g[t] + t)
       IN RunThread(t, i + 1, [m |-> IF wr THEN [s.m EXCEPT ![c] = v] ELSE s.m, g |-> [s.g EXCEPT ![t] = g],
                               r |-> IF rd THEN [s.r EXCEPT ![c] = @ \cup {t}] ELSE s.r,
                               w |-> IF wr THEN [s.w EXCEPT ![c] = @ \cup {t}] ELSE s.w])
RECURSIVE RunAll(_, _)
RunAll(o, s) == IF o = <<>> THEN s ELSE RunAll(Tail(o), RunThread(Head(o), 1, s))
Alone(o) == RunAll(o, [m |-> Start.m, g |-> Start.g, r |-> [c \in C |-> {}], w |-> [c \in C |-> {}]])
Orders == IF Threads = 2 THEN {<<1, 2>>, <<2, 1>>} ELSE {<<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 1>>}
Clean(s) == CASE Rule = "private" -> \A c \in C : Private(s.r[c], s.w[c])
              [] Rule = "writes" -> \A c \in C : Cardinality(s.w[c]) <= 1
              [] Rule = "none" -> TRUE

(* All interleavings; "add" takes two steps *)
Init == /\ prog \in [T -> [1..Steps -> Code]]
        /\ pc = [t \in T |-> 1] /\ reg = Start.g /\ mem = Start.m /\ half = [t \in T |-> 99]
Step(t) ==
  /\ pc[t] <= Steps
  /\ LET st == prog[t][pc[t]]
         c == Target(st, reg[t])
     IN IF st[1] = "add" /\ half[t] = 99
        THEN half' = [half EXCEPT ![t] = mem[c]] /\ UNCHANGED <<pc, reg, mem>>
        ELSE /\ pc' = [pc EXCEPT ![t] = @ + 1]
             /\ half' = [half EXCEPT ![t] = 99]
             /\ mem' = (IF st[1] = "read" THEN mem ELSE [mem EXCEPT ![c] = IF st[1] = "add" THEN Bound(half[t] + t) ELSE Bound(reg[t] + t)])
             /\ reg' = (IF st[1] = "read" THEN [reg EXCEPT ![t] = mem[c]] ELSE reg)
  /\ UNCHANGED prog
Next == \E t \in T : Step(t)
Ended == \A t \in T : pc[t] > Steps
Same == Ended => \A o \in Orders : LET s == Alone(o) IN Clean(s) => s.m = mem /\ s.g = reg
=============================================================================

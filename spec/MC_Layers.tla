------------------------------- MODULE MC_Layers -------------------------------
(***************************************************************************)
(* LayerStore on its own: every program of Depth calls on two layers of    *)
(* one kind, in exact arithmetic: inputs of two shapes, inputs and         *)
(* gradients that are rejected, mode switches, updates, copies.  The       *)
(* programs are also written out and executed by the real library.         *)
(***************************************************************************)
EXTENDS LayerStore, LayerLaws, Json
CONSTANTS Kind, Config, Depth
VARIABLES hist,   \* the calls so far
          fed     \* layer -> the inputs it took in training mode, latest last

Cfg == CASE Kind = "fc" -> (IF Config = 1 THEN <<2, 2>> ELSE <<3, 1>>)
         [] Kind = "conv" -> (CASE Config = 1 -> <<1, 2, 2, 2, 1, 0, 1>> [] Config = 2 -> <<2, 1, 1, 2, 2, 1, 1>> [] Config = 3 -> <<1, 1, 2, 1, 1, 1, 2>>)
         [] Kind = "pool" -> (CASE Config = 1 -> <<2, 1, 0>> [] Config = 2 -> <<2, 2, 1>> [] Config = 3 -> <<3, 1, 1>>)
         [] Kind = "bn" -> (IF Config = 1 THEN <<1>> ELSE <<2>>)
         [] OTHER -> <<0>>
Fun == IF Kind = "act" THEN <<"tanh", "softmax", "leaky">>[Config] ELSE "-"
ArgA == CASE Kind = "bn" -> "0x1p-3" [] Kind = "drop" -> "0x1p-1" [] Kind = "act" -> "0x1p-2" [] OTHER -> "0"
ArgB == IF Kind = "bn" THEN "0.75" ELSE "0"
Number(i) == <<"1", "-2", "3", "0.5", "-4", "7", "0.25", "-1.5", "2.5", "-6", "1.25", "5", "-0.75", "9", "-3.5", "4.5">>[((i - 1) % 16) + 1]
RECURSIVE Numbers(_, _, _)
Numbers(i, n, step) == IF n = 1 THEN Number(i) ELSE Number(i) \o " " \o Numbers(i + step, n - 1, step)
Ten(s, i, step) == [s |-> s, d |-> Numbers(i, Prod(s), step)]
C0 == Cfg[1]
InShapes == CASE Kind = "fc" -> <<<<C0>>, <<2, C0>>>>
              [] Kind = "conv" -> <<<<1, C0, 2, 2>>, <<2, C0, 2, 3>>>>
              [] Kind = "pool" -> <<<<1, 1, 2, 2>>, <<1, 2, 3, 2>>>>
              [] Kind = "flat" -> <<<<2, 3>>, <<1, 2, 2>>>>
              [] Kind = "bn" -> <<<<2, C0>>, <<1, C0, 2, 1>>>>
              [] Kind = "drop" -> <<<<2>>, <<1, 1>>>>
              [] Kind = "act" -> <<<<1, 2>>, <<2, 2>>>>
BadShapes == CASE Kind = "fc" -> {<<C0 + 1>>} [] Kind = "pool" -> {<<2, 2>>} [] Kind = "flat" -> {<<3>>} [] Kind = "bn" -> {<<2>>} [] OTHER -> {}
WShapes == CASE Kind = "fc" -> <<<<Cfg[1], Cfg[2]>>, <<1, Cfg[2]>>>>
             [] Kind = "conv" -> <<<<Cfg[2], Cfg[1], Cfg[3], Cfg[4]>>, <<Cfg[2], 1>>>>
             [] Kind = "bn" -> <<<<1, C0>>, <<1, C0>>>>
             [] OTHER -> <<>>
New(id) == [op |-> "lnew", id |-> id, k |-> Kind, cfg |-> Cfg, a |-> ArgA, b |-> ArgB, f |-> IF Kind = "act" THEN Fun ELSE "-"]
Set(id) == [op |-> "lset", id |-> id, w |-> Ten(WShapes[1], id, 1), b |-> Ten(WShapes[2], id + 3, 1)]
Settable == Kind \in {"fc", "conv"}
Prefix == IF Settable THEN <<New(1), Set(1), New(2), Set(2)>> ELSE <<New(1), New(2)>>
MCInit == /\ ty = "x" /\ hist = Prefix /\ fed = [i \in {1, 2} |-> <<>>]
          /\ ls = [i \in {1, 2} |-> MakeLayer(New(i), IF Settable THEN <<Lit(Set(i).w), Lit(Set(i).b)>> ELSE <<>>)]

OutShape(L) == CASE Kind = "fc" -> (IF Len(L.x.s) = 1 THEN <<Cfg[2]>> ELSE <<L.x.s[1], Cfg[2]>>)
                 [] Kind = "conv" -> ConvShape(Cfg, L.x)
                 [] Kind = "pool" -> PoolShape(Cfg, L.x)
                 [] Kind = "flat" -> FlatShape(L.x)
                 [] OTHER -> L.x.s
Grads(L) == IF ~L.seen THEN (IF Kind = "act" THEN {} ELSE {<<1, 1>>})
            ELSE IF Kind = "bn" /\ ~L.train THEN {}
            ELSE {OutShape(L)} \cup (IF Kind \in {"flat", "drop"} THEN {<<5>>} ELSE {})
Calls == UNION {
           {[op |-> "lfwd", id |-> i, x |-> Ten(InShapes[j], i + j, 1)] : j \in {1, 2}}
           \cup {[op |-> "lfwd", id |-> i, x |-> Ten(s, 1, 1)] : s \in BadShapes}
           \cup {[op |-> "lbwd", id |-> i, g |-> Ten(s, i, 3)] : s \in Grads(ls[i])}
           \cup (IF Kind \in {"bn", "drop"} \/ i = 1 THEN {[op |-> "lmode", id |-> i, on |-> b] : b \in {TRUE, FALSE}} ELSE {})
           \cup (IF Trainable(ls[i]) /\ Learnt(ls[i]) THEN {[op |-> "lput", id |-> i, w |-> [j \in 1..Len(WShapes) |-> Ten(WShapes[j], i + 6, 1)]],
                                                            [op |-> "lsee", id |-> i, v |-> IF Kind = "bn" THEN "spy" ELSE "get"]} ELSE {})
           : i \in {1, 2}}
         \cup (IF Kind = "act" THEN {} ELSE {[op |-> "lcopy", id |-> 2, p |-> 1]})
Shown(t) == [s |-> t.s, d |-> t.d]
ShownAll(q) == [i \in 1..Len(q) |-> Shown(q[i])]
\* The outputs a training-mode dropout layer may give.
Masked(L, x) == {T(x.s, [k \in 1..Len(x.d) |-> IF k \in m THEN Zero ELSE Scaled(L, x.d[k])]) : m \in SUBSET (1..Len(x.d))}
Gradients(L) == IF L.due = <<>> THEN L.gs ELSE BwdVal(L.due[1].L, L.due[1].g).gs
Replies(e) ==
  LET L == ls[e.id] IN
  CASE e.op = "lfwd" -> LET x == Lit(e.x) IN
         IF FwdRejects(L, x) THEN {[ok |-> FALSE]}
         ELSE {[ok |-> TRUE, y |-> Shown(y), x |-> Shown(x)] : y \in IF Kind = "drop" /\ L.train THEN Masked(L, x) ELSE {FwdVal(L, x)}}
    [] e.op = "lbwd" -> LET g == Lit(e.g) IN
         IF BwdRejects(L, g) THEN {[ok |-> FALSE]}
         ELSE {[ok |-> TRUE, g |-> Shown(g),
                y |-> Shown(IF Kind = "drop" /\ L.train THEN T(g.s, [k \in 1..Len(g.d) |-> IF L.mask[k] = "dropped" THEN Zero ELSE Scaled(L, g.d[k])]) ELSE BwdVal(L, g).y)]}
    [] e.op = "lsee" -> {[ok |-> TRUE, ws |-> ShownAll(L.ws), gs |-> ShownAll(Gradients(L))]}
    [] e.op = "lput" -> {[ok |-> TRUE, ws |-> ShownAll(L.ws), gs |-> ShownAll(Gradients(L)), calls |-> 1]}
    [] OTHER -> {[ok |-> TRUE]}
MCNext == /\ Len(hist) < Len(Prefix) + Depth
          /\ \E e \in Calls : \E r \in Replies(e) :
                /\ LayerStep(e @@ [r |-> r])
                /\ hist' = Append(hist, e)
                /\ fed' = IF e.op = "lcopy" THEN [fed EXCEPT ![e.id] = fed[e.p]]
                          ELSE IF e.op = "lfwd" /\ r.ok /\ (ls[e.id].train \/ Kind \notin {"bn", "drop"}) THEN [fed EXCEPT ![e.id] = Append(@, Lit(e.x))]
                          ELSE fed
MCVars == <<ls, ty, hist, fed>>
LayerView == <<ls, fed, Len(hist)>>

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
\* Every call gets an answer.
Total == Len(hist) < Len(Prefix) + Depth => \A e \in Calls : \A r \in Replies(e) : ENABLED LayerStep(e @@ [r |-> r])
\* What backward works with is the latest input (taken in training mode, where there are modes).
Latest == \A i \in {1, 2} : IF fed[i] = <<>> THEN ~ls[i].seen ELSE ls[i].seen /\ ls[i].x = fed[i][Len(fed[i])]
\* What backward returns and leaves is the derivative of forward at that input.
Derivative == \A i \in {1, 2} : ls[i].due # <<>> /\ Kind # "drop" =>
                LET d == ls[i].due[1] IN d.g.s = OutShape(d.L) /\ GradientsRight([d.L EXCEPT !.train = TRUE], d.L.x, d.g)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN One ELSE RMul(b, Pow(b, n - 1))
\* The running statistics are the weighted averages of the batches seen in training mode.
Running == Kind = "bn" => \A i \in {1, 2} : \A f \in 1..C0 :
  LET n == Len(fed[i])
      st(j) == LET q == OfFeature(fed[i][j], f)
                   c == RInt(Len(q))
                   m == RDiv(RSum(q), c)
               IN [m |-> m, v |-> RDiv(RSum([k \in 1..Len(q) |-> RMul(RSub(q[k], m), RSub(q[k], m))]), c)]
      old == Pow(ls[i].mom, n)
      part(j) == RMul(Pow(ls[i].mom, n - j), RSub(One, ls[i].mom))
  IN /\ Near(ls[i].rm[f].c, RSum([j \in 1..n |-> RMul(part(j), st(j).m)]))
     /\ Near(ls[i].rv[f].c, RAdd(old, RSum([j \in 1..n |-> RMul(part(j), st(j).v)])))
Last == hist'[Len(hist')]
\* A call changes the layer it names, and only in the ways it may.
Isolation == [][LET e == Last IN
  /\ \A i \in {1, 2} : i # e.id => ls'[i] = ls[i]
  /\ e.op \in {"lfwd", "lbwd", "lmode", "lsee"} => ls'[e.id].ws = ls[e.id].ws
  /\ e.op # "lmode" /\ e.op # "lcopy" => ls'[e.id].train = ls[e.id].train
  /\ e.op \in {"lbwd", "lmode", "lsee", "lput"} => ls'[e.id].x = ls[e.id].x /\ ls'[e.id].seen = ls[e.id].seen
  /\ Kind = "bn" /\ e.op \notin {"lfwd", "lcopy"} => ls'[e.id].rm = ls[e.id].rm /\ ls'[e.id].rv = ls[e.id].rv]_MCVars
\* Inference leaves no trace in layers that behave differently in training.
EvalPure == [][Last.op = "lfwd" /\ Kind \in {"bn", "drop"} /\ ~ls[Last.id].train => ls' = ls]_MCVars
Rejected == [][(Last.op = "lfwd" /\ FwdRejects(ls[Last.id], Lit(Last.x))) \/ (Last.op = "lbwd" /\ BwdRejects(ls[Last.id], Lit(Last.g))) => ls' = ls]_MCVars
Emit == Len(hist) >= Len(Prefix) + Depth => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

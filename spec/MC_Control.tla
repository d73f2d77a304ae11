------------------------------ MODULE MC_Control ------------------------------
(***************************************************************************)
(* Control on its own: every program of Calls calls on a model with Layers *)
(* layers, every order of its calls that Control allows, and an exception  *)
(* at every one of them.  Values are terms.  The programs, with the place  *)
(* of the exception, are written out and executed by the real library.     *)
(***************************************************************************)
EXTENDS Control, Json, SequencesExt
CONSTANTS Layers, Calls, Samples, Epochs
VARIABLES hist,  \* the program so far
          log    \* the model's calls since the last begin

Val(t) == [s |-> <<1>>, d |-> t]
X(i) == Val(ToString(100 + i))
T(i) == Val(ToString(200 + i))
Prefix == <<[op |-> "mnew", m |-> 1]>>
          \o [i \in 1..Layers |-> [op |-> "madd", m |-> 1, l |-> i, how |-> IF i = 1 THEN "lv" ELSE "rv", sh |-> <<1>>]]
          \o <<[op |-> "mcompile", m |-> 1, f |-> 1, o |-> 1, how |-> "lv"]>>
MCInit == /\ ms = (1 :> [ls |-> [i \in 1..Layers |-> [l |-> i, on |-> TRUE]], f |-> 1, o |-> 1])
          /\ pc = Idle /\ hist = Prefix /\ log = <<>>

Losses == "3 5 7 2"
Trains == {[op |-> "train", m |-> 1, xs |-> [i \in 1..k |-> X(i)], ts |-> [i \in 1..k |-> T(i)], n |-> n, vs |-> Losses] : k \in 0..Samples, n \in 0..Epochs}
Runs == {c \in Trains : c.n > 0 => c.xs # <<>>}
        \cup {[op |-> "predict", m |-> 1, x |-> X(1)], [op |-> "predictn", m |-> 1, xs |-> <<X(1), X(2)>>], [op |-> "predictn", m |-> 1, xs |-> <<>>],
              [op |-> "back", m |-> 1, g |-> X(3)], [op |-> "update", m |-> 1]}
Modes == {[op |-> "mmode", m |-> 1, on |-> b] : b \in BOOLEAN}
Others == {[op |-> "mcompile", m |-> 1, f |-> 2, o |-> 2, how |-> "rv"]}
          \cup (IF Depth(1) = Layers THEN {[op |-> "madd", m |-> 1, l |-> 9, how |-> "mv", sh |-> <<1>>]} ELSE {})
          \cup {[op |-> "mget", m |-> 1, i |-> i] : i \in 0..(Depth(1) - 1)}
Reply(c) == [ok |-> TRUE, modes |-> IF c.op = "mmode" THEN [i \in 1..Depth(1) |-> c.on] ELSE <<>>, l |-> IF c.op = "mget" THEN ms[1].ls[c.i + 1].l ELSE 0]

More == Len(hist) < Len(Prefix) + Calls
Program ==
  /\ pc.k = "idle" /\ More
  /\ \/ \E c \in Modes \cup Others : CtlStep(c @@ [r |-> Reply(c)]) /\ hist' = Append(hist, c) /\ log' = <<>>
     \/ \E c \in Runs : CtlStep([c EXCEPT !.op = @ \o "_begin"]) /\ hist' = Append(hist, c @@ [at |-> 0]) /\ log' = <<>>

App(f, y) == Val(f \o "(" \o y.d \o ")")
F(l, x) == App("F" \o ToString(l), x)
B(l, g) == App("B" \o ToString(l), g)
G(f, p, t) == App("G" \o ToString(f), Val(p.d \o "," \o t.d))
Mine == ms[pc.m]
\* The calls a model may make next.
Offers ==
  IF pc.k \in {"idle", "failed"} THEN {}
  ELSE CASE pc.ph = "fwd" -> {[op |-> "fwd", l |-> Mine.ls[pc.at].l, on |-> Mine.ls[pc.at].on, x |-> pc.cur, y |-> F(Mine.ls[pc.at].l, pc.cur)]}
         [] pc.ph = "mid" -> {[op |-> "grad", f |-> Mine.f, p |-> pc.out, t |-> pc.ts[pc.i], g |-> G(Mine.f, pc.out, pc.ts[pc.i])]}
         [] pc.ph = "bwd" -> {[op |-> "bwd", l |-> Mine.ls[pc.at].l, g |-> pc.cur, y |-> B(Mine.ls[pc.at].l, pc.cur)]}
         [] pc.ph = "upd" -> {[op |-> "upd", l |-> Mine.ls[i].l, o |-> Mine.o] : i \in pc.todo}
         [] OTHER -> {}
LossOffers == IF pc.k = "train" /\ pc.ph \in {"mid", "bwd", "upd"} /\ ~pc.loss
                THEN {[op |-> "loss", f |-> Mine.f, p |-> pc.out, t |-> pc.ts[pc.i], v |-> Val("4")]} ELSE {}
Model == \E e \in Offers \cup LossOffers, thr \in BOOLEAN :
           /\ CtlStep(e @@ [thr |-> thr])
           /\ log' = Append(log, e)
           /\ hist' = IF thr THEN [hist EXCEPT ![Len(hist)].at = Len(log) + 1] ELSE hist
Call == hist[Len(hist)]
Outputs == [ok |-> TRUE, fail |-> pc.k = "failed", lines |-> Lines, y |-> IF pc.k = "predict" /\ pc.outs # <<>> THEN pc.outs[1] ELSE Val(""), ys |-> IF pc.k = "predict" THEN pc.outs ELSE <<>>]
Return == /\ pc.k # "idle" /\ pc.k # "failed" => pc.ph = "done"
          /\ pc.k # "idle"
          /\ CtlStep([op |-> Call.op \o "_end", r |-> Outputs])
          /\ UNCHANGED <<hist, log>>
MCNext == Program \/ Model \/ Return
MCVars == <<ms, pc, hist, log>>
MCSpec == MCInit /\ [][MCNext]_MCVars /\ WF_MCVars(Model \/ Return)

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
\* A model that was called always has a next step or has finished.
NeverStuck == pc.k # "idle" => Offers # {} \/ LossOffers # {} \/ ENABLED Return
Work == SelectSeq(log, LAMBDA e : e.op # "loss")
D == Depth(1)
Block == 3 * D + 1
Ran == Call.op = "train" /\ Len(hist) > Len(Prefix)
\* The j-th call other than a loss evaluation, counted from zero, is determined by j alone (updates: up to their order).
InOrder == Ran => \A j \in 0..(Len(Work) - 1) :
  LET e == Work[j + 1]
      k == j % Block
      i == ((j \div Block) % Len(Call.xs)) + 1
      before == Work[j]
  IN /\ j \div Block < Call.n * Len(Call.xs)
     /\ CASE k < D -> e.op = "fwd" /\ e.l = ms[1].ls[k + 1].l /\ e.x = IF k = 0 THEN Call.xs[i] ELSE before.y
          [] k = D -> e.op = "grad" /\ e.t = Call.ts[i] /\ e.p = IF k = 0 THEN Call.xs[i] ELSE before.y
          [] k > D /\ k <= 2 * D -> e.op = "bwd" /\ e.l = ms[1].ls[2 * D + 1 - k].l /\ e.g = IF k = D + 1 THEN before.g ELSE before.y
          [] OTHER -> e.op = "upd" /\ \A j2 \in (j - (k - 2 * D - 1))..(j - 1) : Work[j2 + 1].l # e.l
\* One evaluation of the loss per sample, on that sample's output.
LossesSeen == SelectSeq(log, LAMBDA e : e.op = "loss")
LossOnce == Ran => LET done == Len(Work) \div Block IN
  /\ Len(LossesSeen) >= IF pc.k = "failed" THEN 0 ELSE done - 1
  /\ Len(LossesSeen) <= done + 1
  /\ \A k \in 1..Len(LossesSeen) :
       LET i == ((k - 1) % Len(Call.xs)) + 1
           at == (k - 1) * Block + D
       IN /\ LossesSeen[k].t = Call.ts[i]
          /\ LossesSeen[k].p = IF D = 0 THEN Call.xs[i] ELSE Work[at].y
\* What a finished run did, and what it did not do.
Finished == pc.k = "train" /\ pc.ph = "done" =>
  /\ Len(Work) = Call.n * Len(Call.xs) * Block
  /\ Len(LossesSeen) = Call.n * Len(Call.xs)
  /\ Len(pc.sums) = Call.n /\ \A k \in 1..Call.n : Len(pc.sums[k]) = Len(Call.xs)
PredictOnly == Len(hist) > Len(Prefix) /\ Call.op \in {"predict", "predictn"} => \A k \in 1..Len(log) : log[k].op = "fwd"
RECURSIVE Chain(_, _)
Chain(x, k) == IF k = 0 THEN x ELSE F(ms[1].ls[k].l, Chain(x, k - 1))
Composed == pc.k = "predict" /\ pc.ph = "done" => pc.outs = [i \in 1..Len(pc.xs) |-> Chain(pc.xs[i], D)]
\* Only the program changes the layers, their mode, the loss and the optimizer.
Stable == [][pc.k # "idle" => ms' = ms]_MCVars
\* Every call ends.
Ends == []<>(pc.k = "idle")
\* Enough to write out every program once: the order of a model's calls is the library's.
Outline == <<ms, pc, hist, Len(log)>>
Emit == ~More /\ pc.k = "idle" => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

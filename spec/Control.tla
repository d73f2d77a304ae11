------------------------------- MODULE Control -------------------------------
(***************************************************************************)
(* How a model drives its layers, its loss and its optimizer.              *)
(*                                                                         *)
(* The layers, losses and optimizers are the program's own: the only       *)
(* things known about them are the calls the model makes on them.  Values  *)
(* are opaque.  A call of the program on a model is a sequence of steps:   *)
(* <call>_begin, the calls the model makes, <call>_end.                    *)
(*                                                                         *)
(*   program                             model                             *)
(*   mnew m                              fwd l x on -> y                   *)
(*   madd m l                            bwd l g -> y                      *)
(*   mcompile m f o                      upd l o                           *)
(*   mmode m on -> modes                 loss f p t -> v                   *)
(*   mget m i -> l                       grad f p t -> g                   *)
(*   train m xs ts n, predict m x, predictn m xs, back m g, update m       *)
(*                                                                         *)
(* Any of the model's calls may throw (thr); the model then passes the     *)
(* exception on and does nothing else.                                     *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets, TLC
CONSTANT CheckText   \* TRUE: the progress lines are judged too

VARIABLES ms,  \* models: [ls, f, o], ls: sequence of [l, on]
          pc   \* what the program is waiting for
ctlVars == <<ms, pc>>
Idle == [k |-> "idle"]
CtlInit == ms = <<>> /\ pc = Idle

\* The meaning of opaque values; the numbers among them are losses.
V(y) == [s |-> y.s, d |-> y.d]
Vs(q) == [i \in 1..Len(q) |-> V(q[i])]

Depth(m) == Len(ms[m].ls)
(***************************************************************************)
(* Steps that need no call: from the last layer's output to the loss, from *)
(* the first layer's gradient to the updates, from a finished sample to    *)
(* the next one, from the last sample of an epoch to the next epoch.       *)
(***************************************************************************)
RECURSIVE Settle(_)
Settle(p) ==
  CASE p.k = "train" /\ p.ph = "start" ->
         IF p.ep > p.n THEN [p EXCEPT !.ph = "done"]
         ELSE IF p.i > Len(p.xs) THEN Settle([p EXCEPT !.ep = @ + 1, !.i = 1, !.sums = Append(@, p.vs), !.vs = <<>>])
         ELSE Settle([p EXCEPT !.ph = "fwd", !.at = 1, !.cur = p.xs[p.i], !.loss = FALSE, !.grad = FALSE])
    [] p.k = "train" /\ p.ph = "fwd" /\ p.at > Depth(p.m) -> Settle([p EXCEPT !.ph = "mid", !.out = p.cur])
    [] p.k = "train" /\ p.ph = "mid" /\ p.grad -> Settle([p EXCEPT !.ph = "bwd", !.at = Depth(p.m)])
    [] p.k = "train" /\ p.ph = "bwd" /\ p.at = 0 -> Settle([p EXCEPT !.ph = "upd", !.todo = 1..Depth(p.m)])
    [] p.k = "train" /\ p.ph = "upd" /\ p.todo = {} /\ p.loss -> Settle([p EXCEPT !.ph = "start", !.i = @ + 1])
    [] p.k = "predict" /\ p.ph = "start" ->
         IF p.i > Len(p.xs) THEN [p EXCEPT !.ph = "done"]
         ELSE Settle([p EXCEPT !.ph = "fwd", !.at = 1, !.cur = p.xs[p.i]])
    [] p.k = "predict" /\ p.ph = "fwd" /\ p.at > Depth(p.m) -> Settle([p EXCEPT !.ph = "start", !.i = @ + 1, !.outs = Append(@, p.cur)])
    [] p.k = "back" /\ p.ph = "bwd" /\ p.at = 0 -> [p EXCEPT !.ph = "done"]
    [] p.k = "update" /\ p.ph = "upd" /\ p.todo = {} -> [p EXCEPT !.ph = "done"]
    [] OTHER -> p

TrainPc(m, xs, ts, n) == [k |-> "train", m |-> m, xs |-> xs, ts |-> ts, n |-> n, ep |-> 1, i |-> 1, ph |-> "start", at |-> 1,
                          cur |-> V([s |-> <<>>, d |-> ""]), out |-> V([s |-> <<>>, d |-> ""]), loss |-> FALSE, grad |-> FALSE, todo |-> {}, vs |-> <<>>, sums |-> <<>>]
PredictPc(m, xs) == [k |-> "predict", m |-> m, xs |-> xs, i |-> 1, ph |-> "start", at |-> 1, cur |-> V([s |-> <<>>, d |-> ""]), outs |-> <<>>]

\* The program's calls
Ready(e) == pc.k = "idle" /\ (e.op # "mnew" => e.m \in DOMAIN ms)
NewM(e) == Ready(e) /\ e.r.ok /\ ms' = (e.m :> [ls |-> <<>>, f |-> 0, o |-> 0]) @@ ms /\ UNCHANGED pc
Add(e) == Ready(e) /\ e.r.ok /\ ms' = [ms EXCEPT ![e.m].ls = Append(@, [l |-> e.l, on |-> TRUE])] /\ UNCHANGED pc
Compile(e) == Ready(e) /\ e.r.ok /\ ms' = [ms EXCEPT ![e.m].f = e.f, ![e.m].o = e.o] /\ UNCHANGED pc
Mode(e) == /\ Ready(e) /\ e.r.ok
           /\ e.r.modes = [i \in 1..Depth(e.m) |-> e.on]
           /\ ms' = [ms EXCEPT ![e.m].ls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.on = e.on]]]
           /\ UNCHANGED pc
Get(e) == Ready(e) /\ e.r.ok /\ e.r.l = ms[e.m].ls[e.i + 1].l /\ UNCHANGED ctlVars
Begin(e) == /\ Ready(e)
            /\ pc' = Settle(CASE e.op = "train_begin" -> TrainPc(e.m, Vs(e.xs), Vs(e.ts), e.n)
                              [] e.op = "predict_begin" -> PredictPc(e.m, <<V(e.x)>>)
                              [] e.op = "predictn_begin" -> PredictPc(e.m, Vs(e.xs))
                              [] e.op = "back_begin" -> [k |-> "back", m |-> e.m, ph |-> "bwd", at |-> Depth(e.m), cur |-> V(e.g)]
                              [] e.op = "update_begin" -> [k |-> "update", m |-> e.m, ph |-> "upd", todo |-> 1..Depth(e.m)])
            /\ UNCHANGED ms

\* The model's calls
Failed(e) == pc' = [k |-> "failed", what |-> pc.k, sums |-> IF pc.k = "train" THEN pc.sums ELSE <<>>] /\ UNCHANGED ms
Busy(phase) == pc.k \notin {"idle", "failed"} /\ pc.ph \in phase
Fwd(e) == /\ Busy({"fwd"})
          /\ LET L == ms[pc.m].ls[pc.at]
             IN e.l = L.l /\ e.on = L.on /\ V(e.x) = pc.cur
          /\ IF e.thr THEN Failed(e) ELSE pc' = Settle([pc EXCEPT !.at = @ + 1, !.cur = V(e.y)]) /\ UNCHANGED ms
Bwd(e) == /\ Busy({"bwd"})
          /\ e.l = ms[pc.m].ls[pc.at].l /\ V(e.g) = pc.cur
          /\ IF e.thr THEN Failed(e) ELSE pc' = Settle([pc EXCEPT !.at = @ - 1, !.cur = V(e.y)]) /\ UNCHANGED ms
\* The loss is evaluated once after the forward pass, at the latest before the next sample.
LossC(e) == /\ Busy({"mid", "bwd", "upd"}) /\ pc.k = "train" /\ ~pc.loss
            /\ e.f = ms[pc.m].f /\ V(e.p) = pc.out /\ V(e.t) = pc.ts[pc.i]
            /\ IF e.thr THEN Failed(e) ELSE pc' = Settle([pc EXCEPT !.loss = TRUE, !.vs = Append(@, V(e.v))]) /\ UNCHANGED ms
GradC(e) == /\ Busy({"mid"})
            /\ e.f = ms[pc.m].f /\ V(e.p) = pc.out /\ V(e.t) = pc.ts[pc.i]
            /\ IF e.thr THEN Failed(e) ELSE pc' = Settle([pc EXCEPT !.grad = TRUE, !.cur = V(e.g)]) /\ UNCHANGED ms
\* The layers may be updated in any order.
Upd(e) == /\ Busy({"upd"})
          /\ e.o = ms[pc.m].o
          /\ \E i \in pc.todo : /\ ms[pc.m].ls[i].l = e.l
                                /\ IF e.thr THEN Failed(e) ELSE pc' = Settle([pc EXCEPT !.todo = @ \ {i}]) /\ UNCHANGED ms

\* The end of a program's call

\* One line for every epoch that was completed: its number, from zero, and the mean of its losses.
RECURSIVE Total(_, _)
Total(vs, i) == IF i = 0 THEN RInt(0) ELSE RAdd(Total(vs, i - 1), RLit(vs[i].d))
LineOf(k, vs) == "Epoch " \o ToString(k) \o " - Loss: [" \o RText(RDiv(Total(vs, Len(vs)), RInt(Len(vs)))) \o "]"
Lines == IF pc.k = "failed" \/ pc.k = "train" THEN [k \in 1..Len(pc.sums) |-> LineOf(k - 1, pc.sums[k])] ELSE <<>>
End(e) == /\ pc' = Idle /\ UNCHANGED ms
          /\ e.r.ok
          /\ (CheckText => e.r.lines = Lines)
          /\ IF pc.k = "failed" THEN e.r.fail /\ (e.op = pc.what \o "_end" \/ (pc.what = "predict" /\ e.op = "predictn_end"))
             ELSE /\ Busy({"done"}) /\ ~e.r.fail
                  /\ CASE pc.k = "train" -> e.op = "train_end"
                       [] pc.k = "predict" -> (e.op = "predict_end" /\ <<V(e.r.y)>> = pc.outs) \/ (e.op = "predictn_end" /\ Vs(e.r.ys) = pc.outs)
                       [] pc.k = "back" -> e.op = "back_end"
                       [] pc.k = "update" -> e.op = "update_end"
CtlStep(e) ==
  CASE e.op = "mnew" -> NewM(e)
    [] e.op = "madd" -> Add(e)
    [] e.op = "mcompile" -> Compile(e)
    [] e.op = "mmode" -> Mode(e)
    [] e.op = "mget" -> Get(e)
    [] e.op \in {"train_begin", "predict_begin", "predictn_begin", "back_begin", "update_begin"} -> Begin(e)
    [] e.op \in {"train_end", "predict_end", "predictn_end", "back_end", "update_end"} -> End(e)
    [] e.op = "fwd" -> Fwd(e)
    [] e.op = "bwd" -> Bwd(e)
    [] e.op = "upd" -> Upd(e)
    [] e.op = "loss" -> LossC(e)
    [] e.op = "grad" -> GradC(e)
    [] OTHER -> FALSE
=============================================================================

------------------------------- MODULE NetStore -------------------------------
(***************************************************************************)
(* Models of the library's own layers, losses and optimizers, seen from    *)
(* outside: a program builds, trains and uses them, and looks at their     *)
(* parameters and predictions.                                             *)
(*                                                                         *)
(*   nnew m                                                                *)
(*   nadd m k cfg a b f -> ws       add a layer                            *)
(*   nset m i w b -> ws             set the parameters of layer i          *)
(*   ncompile m f k o               loss f, optimizer of kind k, options o *)
(*   nmode m on                                                            *)
(*   ntrain m xs ts n -> fail ps lines    whether it was rejected, the     *)
(*                                  parameters of every layer (those that  *)
(*                                  can be read), epoch lines              *)
(*   npredict m x -> fail y ps e0 e1     e0, e1: the state of the random engine *)
(*   npredictn m xs -> ys ps e0 e1  before and after                       *)
(***************************************************************************)
EXTENDS Nets
VARIABLES nets,  \* model -> [ref, sh, memo, lost]: the network, its perturbed version, whether it was given up, the predictions made in evaluation mode since its parameters last changed
          ty
netVars == <<nets, ty>>
NetInit == nets = <<>> /\ ty = "x"

P(y) == IF ty = "x" THEN T(y.s, y.d) ELSE T(y.s, RVec(y.d))
PS(q) == TLCEval([i \in 1..Len(q) |-> P(q[i])])
Lit(y) == T(y.s, RVec(y.d))
Lits(q) == TLCEval([i \in 1..Len(q) |-> Lit(q[i])])

Blank == [ls |-> <<>>, f |-> "mse", opt |-> [k |-> "sgd", o |-> <<>>], st |-> <<>>]
New(e) == e.r.ok /\ nets' = (e.m :> [ref |-> Blank, sh |-> Blank, memo |-> <<>>, lost |-> FALSE]) @@ nets
Both(m, Op(_)) == nets' = (m :> [ref |-> Op(nets[m].ref), sh |-> Op(nets[m].sh), memo |-> <<>>, lost |-> FALSE]) @@ nets
Add(e) == /\ e.m \in DOMAIN nets /\ e.r.ok
          /\ LET ws == PS(e.r.ws)
             IN Holds(MakeOk(e, ws)) /\ Both(e.m, LAMBDA N : [N EXCEPT !.ls = Append(@, MakeLayer(e, ws))])
SetP(e) == /\ e.m \in DOMAIN nets /\ e.r.ok
           /\ PS(e.r.ws) = <<Lit(e.w), Lit(e.b)>>
           /\ Both(e.m, LAMBDA N : [N EXCEPT !.ls[e.i + 1].ws = <<Lit(e.w), Lit(e.b)>>])
Compile(e) == e.m \in DOMAIN nets /\ e.r.ok /\ Both(e.m, LAMBDA N : [N EXCEPT !.f = e.f, !.opt = [k |-> e.k, o |-> Options(ty, e.k, e.o)], !.st = <<>>])
Switched(N, on) == [N EXCEPT !.ls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.train = on]]]
Mode(e) == e.m \in DOMAIN nets /\ e.r.ok /\ nets' = [nets EXCEPT ![e.m] = [ref |-> Switched(@.ref, e.on), sh |-> Switched(@.sh, e.on), memo |-> @.memo, lost |-> FALSE]]

\* ps gives for every layer its parameters, or none where they cannot be read.
ParamsAgree(ps, A, B) == /\ Len(ps) = Len(A.ls)
                         /\ \A i \in 1..Len(ps) : Len(ps[i]) > 0 => /\ Len(ps[i]) = Len(A.ls[i].ws)
                                                                    /\ \A j \in 1..Len(ps[i]) : AgreeT(P(ps[i][j]), A.ls[i].ws[j], B.ls[i].ws[j])
Adopt(ps, N) == [N EXCEPT !.ls = TLCEval([i \in 1..Len(@) |-> IF Len(ps[i]) > 0 THEN [@[i] EXCEPT !.ws = PS(ps[i])] ELSE @[i]])]
\* Parameters that nothing may have changed.  What was never observed may differ by rounding.
Unchanged(ps, A, B) == /\ Len(ps) = Len(A.ls)
                       /\ \A i \in 1..Len(ps) : Len(ps[i]) > 0 => \/ PS(ps[i]) = A.ls[i].ws
                                                                  \/ A.ls[i].k = "bn" /\ \A j \in 1..Len(ps[i]) : AgreeT(P(ps[i][j]), A.ls[i].ws[j], B.ls[i].ws[j])
LinesAgree(lines, a, b) == Len(lines) = Len(a) /\ \A k \in 1..Len(a) : /\ lines[k].n = k - 1
                                                                       /\ LET v == RLit(lines[k].v)
                                                                          IN RIsNum(v) /\ RLe(RAbs(RSub(v, a[k])), RAdd(RMul(RLit("1e-5"), RAdd(RAbs(a[k]), Floor)), RMul(Margin, RAbs(RSub(a[k], b[k])))))
\* A network whose parameters grow without bound is given up: nothing is claimed about it any more.
Vast == RLit("1e9")
TooBig(v) == ~RIsNum(v) \/ RLt(Vast, RAbs(v))
Diverged(a) == \/ \E k \in 1..Len(a.losses) : TooBig(a.losses[k])
               \/ \E i \in 1..Len(a.n.ls) : \E j \in 1..Len(a.n.ls[i].ws) : \E k \in 1..Len(a.n.ls[i].ws[j].d) : TooBig(a.n.ls[i].ws[j].d[k])
Train(e) ==
  /\ e.m \in DOMAIN nets
  /\ LET N == nets[e.m]
         xs == Lits(e.xs)
         ts == Lits(e.ts)
         a == Trained(Zero, N.ref, xs, ts, e.n)
         b == Trained(Noise, N.sh, xs, ts, e.n)
     IN /\ e.r.ok /\ e.r.fail = ~a.ok
        /\ IF Diverged(a) THEN nets' = [nets EXCEPT ![e.m].lost = TRUE]
           ELSE /\ Holds(ParamsAgree(e.r.ps, a.n, b.n))
                /\ Holds(LinesAgree(e.r.lines, a.losses, b.losses))
                /\ nets' = [nets EXCEPT ![e.m] = [ref |-> Adopt(e.r.ps, a.n), sh |-> Adopt(e.r.ps, b.n), memo |-> <<>>, lost |-> FALSE]]

Evaluating(N) == \A i \in 1..Len(N.ls) : ~N.ls[i].train
\* Predictions one after the other: [ok, a, b, ys] with the networks and results after them.
RECURSIVE PredictAll(_, _, _, _)
PredictAll(A, B, xs, ys) ==
  IF Len(ys) = Len(xs) THEN [ok |-> TRUE, a |-> A, b |-> B, ys |-> ys]
  ELSE LET x == xs[Len(ys) + 1]
           p == TLCEval(FwdFrom(Zero, A.ls, 1, x))
           q == TLCEval(FwdFrom(Noise, B.ls, 1, x))
       IN IF ~p.ok THEN [ok |-> FALSE, a |-> [A EXCEPT !.ls = p.ls], b |-> [B EXCEPT !.ls = q.ls], ys |-> ys]
          ELSE PredictAll([A EXCEPT !.ls = p.ls], [B EXCEPT !.ls = q.ls], xs, Append(ys, [a |-> p.y, b |-> q.y]))
\* A result: up to rounding what the reference gives; where a dropout layer in training mode comes last, zero or scaled.
LastDrop(N) == LET n == Len(N.ls) IN n > 0 /\ N.ls[n].k = "drop" /\ N.ls[n].train /\ N.ls[n].rate # Zero
ResultOk(N, y, p) ==
  IF LastDrop(N) THEN LET L == N.ls[Len(N.ls)]
                      IN y.s = p.a.s /\ Len(y.d) = Len(p.a.d) /\ \A k \in 1..Len(y.d) : y.d[k] = Zero \/ Agree(y.d[k], Scaled(L, p.a.d[k]), Scaled(L, p.b.d[k]))
  ELSE AgreeT(y, p.a, p.b)
Known(memo, x, y) == \A k \in 1..Len(memo) : memo[k].x = x => memo[k].y = y
PredictOf(e, xs, ys, raw) ==
  LET N == nets[e.m]
      r == TLCEval(PredictAll(N.ref, N.sh, xs, <<>>))
  IN /\ e.r.ok /\ e.r.fail = ~r.ok
     /\ (Evaluating(N.ref) => e.r.e0 = e.r.e1)
     /\ Holds(Unchanged(e.r.ps, N.ref, N.sh))
     /\ r.ok => /\ Len(ys) = Len(xs)
                /\ Holds(\A k \in 1..Len(ys) : ResultOk(N.ref, ys[k], r.ys[k]))
                \* in evaluation mode the same input has the same prediction, to the last bit, until the parameters change
                /\ (Evaluating(N.ref) => Holds(\A k \in 1..Len(ys) : Known(N.memo \o SubSeq(raw, 1, k - 1), raw[k].x, raw[k].y)))
     /\ nets' = [nets EXCEPT ![e.m] = [ref |-> Adopt(e.r.ps, r.a), sh |-> Adopt(e.r.ps, r.b), memo |-> IF Evaluating(N.ref) THEN @.memo \o raw ELSE <<>>, lost |-> FALSE]]
InOut(x, y) == [x |-> <<x.s, x.d>>, y |-> <<y.s, y.d>>]
Predict(e) == /\ e.m \in DOMAIN nets
              /\ PredictOf(e, <<Lit(e.x)>>, IF ~e.r.fail THEN <<P(e.r.y)>> ELSE <<>>, IF ~e.r.fail THEN <<InOut(e.x, e.r.y)>> ELSE <<>>)
PredictN(e) == /\ e.m \in DOMAIN nets
               /\ PredictOf(e, Lits(e.xs), IF ~e.r.fail THEN PS(e.r.ys) ELSE <<>>, IF ~e.r.fail THEN [k \in 1..Len(e.xs) |-> InOut(e.xs[k], e.r.ys[k])] ELSE <<>>)

NetStep(e) ==
  /\ UNCHANGED ty
  /\ IF e.op # "nnew" /\ e.m \in DOMAIN nets /\ nets[e.m].lost THEN UNCHANGED nets ELSE
     CASE e.op = "nnew" -> New(e)
       [] e.op = "nadd" -> Add(e)
       [] e.op = "nset" -> SetP(e)
       [] e.op = "ncompile" -> Compile(e)
       [] e.op = "nmode" -> Mode(e)
       [] e.op = "ntrain" -> Train(e)
       [] e.op = "npredict" -> Predict(e)
       [] e.op = "npredictn" -> PredictN(e)
       [] OTHER -> FALSE
=============================================================================

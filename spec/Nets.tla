--------------------------------- MODULE Nets ---------------------------------
(***************************************************************************)
(* Networks: reference training and prediction, computed from the exact    *)
(* values of the layers, losses and optimizers.                            *)
(*                                                                         *)
(* A network is [ls, f, opt, st]: its layers, the kind of its loss, its    *)
(* optimizer and what that remembers, st: <<layer, parameter>> -> state.   *)
(*                                                                         *)
(* The implementation computes with rounding, and how far that may take it *)
(* away from the exact values depends on the network.  So the reference is *)
(* computed twice: exactly (eps = 0) and with a perturbation of size eps   *)
(* after every step; the distance between the two, times Margin, bounds    *)
(* what rounding, which is a thousand times smaller, can do.               *)
(***************************************************************************)
EXTENDS Layers, Losses, Optimizers

Noise == RLit("1e-13")
Margin == RInt(20)
Floor == RLit("1e-8")

Sign(k, i) == RInt((((k * k + 3 * k + i) % 5) - 2))
RECURSIVE MaxAbs(_, _)
MaxAbs(d, i) == IF i = 0 THEN Zero ELSE RMax(RAbs(d[i]), MaxAbs(d, i - 1))
Jitter(eps, t, i) ==
  IF eps = Zero THEN t
  ELSE LET m == MaxAbs(t.d, Len(t.d))
       IN T(t.s, TLCEval([k \in 1..Len(t.d) |-> RAdd(t.d[k], RMul(RMul(eps, Sign(k, i)), RAdd(RAbs(t.d[k]), RMul(RLit("0.01"), m))))]))

\* Forward through the layers from i on: [ok, ls, y]; ok = FALSE when a layer rejects its input.
RECURSIVE FwdFrom(_, _, _, _)
FwdFrom(eps, ls, i, x) ==
  IF i > Len(ls) THEN [ok |-> TRUE, ls |-> ls, y |-> x]
  ELSE IF FwdRejects(ls[i], x) THEN [ok |-> FALSE, ls |-> ls, y |-> x]
  ELSE LET y == TLCEval(Jitter(eps, FwdVal(ls[i], x), i))
       IN FwdFrom(eps, TLCEval([ls EXCEPT ![i] = AfterFwd("x", ls[i], x, y)]), i + 1, y)
RECURSIVE BwdFrom(_, _, _, _)
BwdFrom(eps, ls, i, g) ==
  IF i = 0 THEN [ok |-> TRUE, ls |-> ls]
  ELSE IF BwdRejects(ls[i], g) THEN [ok |-> FALSE, ls |-> ls]
  ELSE LET r == TLCEval(BwdVal(ls[i], g))
           gs == TLCEval([j \in 1..Len(r.gs) |-> Jitter(eps, r.gs[j], i + j)])
       IN BwdFrom(eps, TLCEval([ls EXCEPT ![i] = AfterSee(ls[i], gs)]), i - 1, TLCEval(Jitter(eps, r.y, i)))
Remembered(N, i, j) == IF <<i, j>> \in DOMAIN N.st THEN N.st[<<i, j>>] ELSE Fresh(N.ls[i].ws[j].s)
\* One update of every parameter that has a gradient.
UpdateAll(N) ==
  LET which == UNION {{<<i, j>> : j \in 1..Len(N.ls[i].gs)} : i \in 1..Len(N.ls)}
      us == TLCEval([p \in which |-> UpdateOf("x", N.opt, Remembered(N, p[1], p[2]), RInt(-1), N.ls[p[1]].ws[p[2]], N.ls[p[1]].gs[p[2]])])
  IN [N EXCEPT !.ls = TLCEval([i \in 1..Len(N.ls) |-> [N.ls[i] EXCEPT !.ws = TLCEval([j \in 1..Len(N.ls[i].ws) |-> IF j <= Len(N.ls[i].gs) THEN UpdateVal(us[<<i, j>>], N.ls[i].ws[j]) ELSE N.ls[i].ws[j]])]]),
               !.st = TLCEval([p \in which |-> us[p].st] @@ N.st)]

\* One sample: [ok, n, loss]
Sample(eps, N, x, t) ==
  LET f == TLCEval(FwdFrom(eps, N.ls, 1, x)) IN
  IF ~f.ok THEN [ok |-> FALSE, n |-> [N EXCEPT !.ls = f.ls], loss |-> Zero]
  ELSE IF LossRejects(N.f, f.y, t) THEN [ok |-> FALSE, n |-> [N EXCEPT !.ls = f.ls], loss |-> Zero]
  ELSE LET b == TLCEval(BwdFrom(eps, f.ls, Len(f.ls), Jitter(eps, LossGradVal(N.f, f.y, t), 0)))
       IN IF ~b.ok THEN [ok |-> FALSE, n |-> [N EXCEPT !.ls = b.ls], loss |-> Zero]
          ELSE [ok |-> TRUE, n |-> TLCEval(UpdateAll([N EXCEPT !.ls = b.ls])), loss |-> LossVal(N.f, f.y, t).d[1]]
\* k counts samples over all epochs; losses collects the mean loss of every finished epoch.
RECURSIVE TrainFrom(_, _, _, _, _, _, _, _)
TrainFrom(eps, N, xs, ts, epochs, k, sum, losses) ==
  LET n == Len(xs) IN
  IF n = 0 \/ k > n * epochs THEN [ok |-> TRUE, n |-> N, losses |-> losses]
  ELSE LET i == ((k - 1) % n) + 1
           s == TLCEval(Sample(eps, N, xs[i], ts[i]))
           tot == RAdd(sum, s.loss)
       IN IF ~s.ok THEN [ok |-> FALSE, n |-> s.n, losses |-> losses]
          ELSE IF i = n THEN TrainFrom(eps, s.n, xs, ts, epochs, k + 1, Zero, Append(losses, RDiv(tot, RInt(n))))
          ELSE TrainFrom(eps, s.n, xs, ts, epochs, k + 1, tot, losses)
Trained(eps, N, xs, ts, epochs) == TLCEval(TrainFrom(eps, N, xs, ts, epochs, 1, Zero, <<>>))

\* obs agrees with the reference a, whose perturbed version is b.
Agree(obs, a, b) == RIsNum(obs) /\ RLe(RAbs(RSub(obs, a)), RAdd(RMul(Margin, RAbs(RSub(a, b))), RMul(Floor, RAdd(One, RAbs(a)))))
AgreeT(obs, a, b) == obs.s = a.s /\ Len(obs.d) = Len(a.d) /\ \A k \in 1..Len(a.d) : Agree(obs.d[k], a.d[k], b.d[k])
=============================================================================

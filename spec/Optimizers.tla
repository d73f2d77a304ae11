------------------------------ MODULE Optimizers ------------------------------
(***************************************************************************)
(* The recurrences of the optimizers, for one parameter tensor.            *)
(*                                                                         *)
(* An optimizer is [k |-> "sgd" | "rms" | "adam", o |-> options]; what it  *)
(* remembers of a tensor is                                                *)
(*   s   the tensor's shape             n   how often it was updated       *)
(*   v   velocities (sgd, rms)          q   averages of the square         *)
(*   m   averages of the gradient       p1, p2   beta1^n, beta2^n (adam)   *)
(* v, q and m are never observed: they are carried as balls that bound     *)
(* what the implementation can have computed.                              *)
(***************************************************************************)
EXTENDS Tensor

OptNames(k) ==
  CASE k = "sgd" -> <<"lr", "mom", "damp", "wd", "nest">>
    [] k = "rms" -> <<"lr", "alpha", "eps", "mom", "wd", "cen">>
    [] k = "adam" -> <<"lr", "b1", "b2", "eps", "l1", "l2", "decay", "batch">>
\* What an option is when the program does not say.
OptDefault(k, name) ==
  CASE k = "sgd" -> (CASE name = "lr" -> "0.01" [] name = "mom" -> "0.9" [] OTHER -> "0")
    [] k = "rms" -> (CASE name = "lr" -> "0.01" [] name = "alpha" -> "0.99" [] name = "eps" -> "1e-8" [] OTHER -> "0")
    [] k = "adam" -> (CASE name = "lr" -> "0.001" [] name = "b1" -> "0.9" [] name = "b2" -> "0.999" [] name = "eps" -> "1e-8" [] name = "batch" -> "1" [] OTHER -> "0")
Options(ty, k, given) ==
  LET ns == OptNames(k)
      no(n) == CHOOSE i \in 1..Len(ns) : ns[i] = n
  IN [n \in {ns[i] : i \in 1..Len(ns)} |-> IF given[no(n)] = "-" THEN RRound(ty, RLit(OptDefault(k, n))) ELSE RLit(given[no(n)])]

Zeros(n) == [i \in 1..n |-> BExact(Zero)]
Fresh(s) == [s |-> s, n |-> 0, v |-> Zeros(Prod(s)), q |-> Zeros(Prod(s)), m |-> Zeros(Prod(s)), p1 |-> One, p2 |-> One]
\* What is remembered when a tensor of shape s is updated.
Recall(st, s) == IF st.s = s THEN st ELSE Fresh(s)

\* a * x + (1 - a) * y
Average(ty, a, x, y) == BAdd(ty, BMul(ty, BExact(a), x), BMul(ty, BSub(ty, BExact(One), BExact(a)), y))
\* Gradient with weight decay.
Decayed(ty, wd, w, g) == IF wd = Zero THEN BExact(g) ELSE BAdd(ty, BExact(g), BMul(ty, BExact(wd), BExact(w)))
Descend(ty, w, lr, d) == BSub(ty, BExact(w), BMul(ty, lr, d))

\* One element: new velocity and so on, and the ball of the new weight.
SgdElem(ty, o, lr, v, w, g) ==
  LET g1 == Decayed(ty, o.wd, w, g)
      v1 == BAdd(ty, BMul(ty, BExact(o.mom), v), BMul(ty, BSub(ty, BExact(One), BExact(o.damp)), g1))
      d == IF o.mom = Zero THEN g1
           ELSE IF o.nest # Zero THEN BAdd(ty, g1, BMul(ty, BExact(o.mom), v1))
           ELSE v1
  IN [v |-> IF o.mom = Zero THEN v ELSE v1, q |-> BExact(Zero), m |-> BExact(Zero), w |-> Descend(ty, w, lr, d)]
RmsElem(ty, o, lr, v, q, m, w, g) ==
  LET g1 == Decayed(ty, o.wd, w, g)
      q1 == Average(ty, o.alpha, q, BMul(ty, g1, g1))
      m1 == Average(ty, o.alpha, m, g1)
      var == IF o.cen = Zero THEN q1 ELSE BMax0(ty, BSub(ty, q1, BMul(ty, m1, m1)))
      u == BDiv(ty, g1, BSqrt(ty, BAbove(ty, var, o.eps)))
      v1 == BAdd(ty, BMul(ty, BExact(o.mom), v), u)
      d == IF RLt(Zero, o.mom) THEN v1 ELSE u
  IN [v |-> IF RLt(Zero, o.mom) THEN v1 ELSE v, q |-> q1, m |-> IF o.cen = Zero THEN m ELSE m1, w |-> Descend(ty, w, lr, d)]
\* n: number of this update; c1, c2: the bias corrections 1 - beta^n.
AdamElem(ty, o, lr, c1, c2, q, m, w, g) ==
  LET g1 == BDiv(ty, BExact(g), BExact(o.batch))
      m1 == Average(ty, o.b1, m, g1)
      q1 == Average(ty, o.b2, q, BMul(ty, g1, g1))
      u == BDiv(ty, BDiv(ty, m1, c1), BAbove(ty, BSqrt(ty, BDiv(ty, q1, c2)), o.eps))
      sign == IF RLt(Zero, w) THEN One ELSE IF RLt(w, Zero) THEN RNeg(One) ELSE Zero
      u1 == IF RLt(Zero, o.l1) THEN BAdd(ty, u, BExact(RMul(o.l1, sign))) ELSE u
      u2 == IF RLt(Zero, o.l2) THEN BAdd(ty, u1, BMul(ty, BExact(o.l2), BExact(w))) ELSE u1
  IN [v |-> BExact(Zero), q |-> q1, m |-> m1, w |-> Descend(ty, w, lr, u2)]
\* The power p = beta^n, computed in whatever way, is exact up to n + 4 roundings.
Correction(ty, p, n) == BSub(ty, BExact(One), Ball(p, RMul(RMul(RInt(n + 4), Unit(ty)), p)))

\* The learning rate of the n-th update; over is an override, in force when positive.
Rate(ty, opt, over, n) ==
  IF RLt(Zero, over) THEN BExact(over)
  ELSE IF opt.k = "adam" /\ RLt(Zero, opt.o.decay)
    THEN BMul(ty, BExact(opt.o.lr), BDiv(ty, BExact(One), BAdd(ty, BExact(One), BMul(ty, BExact(opt.o.decay), BExact(RInt(n))))))
  ELSE BExact(opt.o.lr)

\* Beyond this magnitude squares overflow, and nothing is claimed any more about the element.
Wide(ty) == CASE ty = "f" -> RLit("0x1p60") [] ty = "d" -> RLit("0x1p500") [] OTHER -> RLit("1e1000")
Wild(ty, w, g) == ~RIsNum(w) \/ ~RIsNum(g) \/ RLt(Wide(ty), RMax(RAbs(w), RAbs(g)))
Anything == LET b == Ball(Zero, RLit("1e5000")) IN [v |-> b, q |-> b, m |-> b, w |-> b]

\* One update of a tensor w by gradient g: what is remembered afterwards, and the balls of the new weights.
UpdateOf(ty, opt, st0, over, w, g) ==
  LET st == Recall(st0, w.s)
      n == st.n + 1
      lr == Rate(ty, opt, over, n)
      p1 == IF opt.k = "adam" THEN RMul(st.p1, opt.o.b1) ELSE One
      p2 == IF opt.k = "adam" THEN RMul(st.p2, opt.o.b2) ELSE One
      c1 == Correction(ty, p1, n)
      c2 == Correction(ty, p2, n)
      e == TLCEval([i \in 1..Len(w.d) |->
             IF Wild(ty, w.d[i], g.d[i]) \/ RLe(Huge(ty), RMax(st.v[i].r, RMax(st.q[i].r, st.m[i].r))) THEN Anything ELSE
             CASE opt.k = "sgd" -> SgdElem(ty, opt.o, lr, st.v[i], w.d[i], g.d[i])
               [] opt.k = "rms" -> RmsElem(ty, opt.o, lr, st.v[i], st.q[i], st.m[i], w.d[i], g.d[i])
               [] opt.k = "adam" -> AdamElem(ty, opt.o, lr, c1, c2, st.q[i], st.m[i], w.d[i], g.d[i])])
  IN [st |-> [s |-> w.s, n |-> n, v |-> TLCEval([i \in 1..Len(e) |-> e[i].v]), q |-> TLCEval([i \in 1..Len(e) |-> e[i].q]), m |-> TLCEval([i \in 1..Len(e) |-> e[i].m]), p1 |-> p1, p2 |-> p2],
      w |-> TLCEval([i \in 1..Len(e) |-> e[i].w])]
\* y is the updated tensor: every element in its ball, and finite.
UpdateOk(ty, u, w, y) == y.s = w.s /\ Len(y.d) = Len(w.d) /\ \A i \in 1..Len(u.w) : RLe(Huge(ty), u.w[i].r) \/ (RIsNum(y.d[i]) /\ InBall(ty, y.d[i], u.w[i]))
UpdateVal(u, w) == T(w.s, [i \in 1..Len(u.w) |-> u.w[i].c])
=============================================================================

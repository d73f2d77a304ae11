-------------------------------- MODULE Losses --------------------------------
(***************************************************************************)
(* Loss functions: l is "mse" or "cce", p the prediction, t the target.    *)
(***************************************************************************)
EXTENDS Tensor

\* A rank-1 target with one value per row stands for a column (or whatever the prediction's shape makes of it).
Fits(p, t) == p.s = t.s \/ (Len(t.s) = 1 /\ t.s[1] = p.s[1] /\ Len(t.d) = Len(p.d))
LossRejects(l, p, t) == CASE l = "mse" -> ~Fits(p, t) [] l = "cce" -> p.s # t.s

Half == RLit("1e-7")
Clamp(v) == RMax(Half, RMin(v, RSub(One, Half)))
Batch(p) == RInt(p.s[1])

LossVal(l, p, t) ==
  CASE l = "mse" -> LET d == TLCEval([k \in 1..Len(p.d) |-> RSub(p.d[k], t.d[k])]) IN T(<<1>>, <<RDiv(RDot(d, d), RInt(Len(p.d)))>>)
    [] l = "cce" -> T(<<1>>, <<RDiv(RNeg(RSum([k \in 1..Len(p.d) |-> RMul(t.d[k], RLn(Clamp(p.d[k])))])), Batch(p))>>)
LossGradVal(l, p, t) ==
  CASE l = "mse" -> T(p.s, TLCEval([k \in 1..Len(p.d) |-> RDiv(RMul(Two, RSub(p.d[k], t.d[k])), RInt(Len(p.d)))]))
    [] l = "cce" -> T(p.s, TLCEval([k \in 1..Len(p.d) |-> RDiv(RDiv(RNeg(t.d[k]), Clamp(p.d[k])), Batch(p))]))

\* The clamp bounds are themselves rounded to the type, which the logarithm near 1 - 1e-7 shows as an absolute error.
LossTol(ty, l, p, t, v) ==
  CASE l = "mse" -> Tol(ty, v, Len(p.d) + 4)
    [] l = "cce" -> RMul(RMul(RInt(2 * (Len(p.d) + 8)), Unit(ty)),
                         RDiv(RSum([k \in 1..Len(p.d) |-> RMul(RAbs(t.d[k]), RAdd(One, RAbs(RLn(Clamp(p.d[k])))))]), Batch(p)))
LossOk(ty, l, p, t, y) == LET v == LossVal(l, p, t) IN y.s = <<1>> /\ Len(y.d) = 1 /\ Within(ty, y.d[1], v.d[1], RAdd(LossTol(ty, l, p, t, v.d[1]), Tiny(ty)))
LossGradOk(ty, l, p, t, y) == CloseT(ty, y, ApproxMap(LossGradVal(l, p, t), 4))
=============================================================================

------------------------------ MODULE Activations ------------------------------
(***************************************************************************)
(* The activation functions and their derivatives.  An activation is       *)
(* [f |-> name, a |-> slope] (the slope is used by "leaky" only).          *)
(***************************************************************************)
EXTENDS Tensor

\* An absolute error bound: rounding in the range of the result plus what the type cannot represent at all.
AbsTol(ty, k, m) == RAdd(RMul(RMul(RInt(k), Unit(ty)), m), RMul(RInt(k), MinNormal(ty)))
CloseAbs(ty, obs, v, k, m) == Within(ty, obs, v, AbsTol(ty, k, m))
Cap(x) == RMin(RAbs(x), RInt(128))

Exp(x) == RExp(x)
Sigm(x) == IF RLe(Zero, x) THEN RDiv(One, RAdd(One, Exp(RNeg(x)))) ELSE LET e == Exp(x) IN RDiv(e, RAdd(One, e))
\* tanh x = 1 - 2 / (e^{2x} + 1), written for x >= 0 and extended as an odd function; small x by the same formula
\* loses digits, but no more than about |log10 x| of the 36.
TanhR(x) == LET p(y) == LET e == Exp(RMul(RInt(-2), y)) IN RDiv(RSub(One, e), RAdd(One, e))
            IN IF RLe(Zero, x) THEN p(x) ELSE RNeg(p(RNeg(x)))
\* ln(1 + e^x)
Softplus(x) == IF RLt(RInt(60), x) THEN RAdd(x, Exp(RNeg(x))) ELSE IF RLt(x, RInt(-60)) THEN Exp(x) ELSE RLn(RAdd(One, Exp(x)))

F(act, x) ==
  CASE act.f = "relu" -> RMax(Zero, x)
    [] act.f = "leaky" -> IF RLt(Zero, x) THEN x ELSE RMul(act.a, x)
    [] act.f = "sigmoid" -> Sigm(x)
    [] act.f = "tanh" -> TanhR(x)
    [] act.f = "swish" -> RMul(x, Sigm(x))
    [] act.f = "mish" -> RMul(x, TanhR(Softplus(x)))
\* The derivative; at 0 the piecewise linear functions have the two one-sided ones.
D(act, x) ==
  CASE act.f = "relu" -> IF x = Zero THEN {Zero, One} ELSE {IF RLt(Zero, x) THEN One ELSE Zero}
    [] act.f = "leaky" -> IF x = Zero THEN {act.a, One} ELSE {IF RLt(Zero, x) THEN One ELSE act.a}
    [] act.f = "sigmoid" -> LET s == Sigm(x) IN {RMul(s, RSub(One, s))}
    [] act.f = "tanh" -> LET h == TanhR(x) IN {RSub(One, RMul(h, h))}
    [] act.f = "swish" -> LET s == Sigm(x) IN {RMul(s, RAdd(One, RMul(x, RSub(One, s))))}
    [] act.f = "mish" -> LET h == TanhR(Softplus(x)) s == Sigm(x) IN {RAdd(h, RMul(RMul(x, RSub(One, RMul(h, h))), s))}
Exactly(act) == act.f \in {"relu"}

ActOk(ty, act, x, y) ==
  CASE act.f = "relu" -> y = F(act, x)
    [] act.f = "leaky" -> Close(ty, y, F(act, x), RAbs(F(act, x)), 1)
    [] act.f \in {"sigmoid", "tanh"} -> CloseAbs(ty, y, F(act, x), 16, One)
    [] OTHER -> LET v == F(act, x) IN CloseAbs(ty, y, v, 16, RAdd(One, RAdd(RAbs(v), Cap(x))))
DerOk(ty, act, x, g, y) ==
  \E d \in D(act, x) : LET v == RMul(g, d) IN
    CASE act.f \in {"relu", "leaky"} -> Close(ty, y, v, RAbs(v), 1)
      [] act.f \in {"sigmoid", "tanh"} -> CloseAbs(ty, y, v, 32, RAbs(g))
      [] OTHER -> CloseAbs(ty, y, v, 64, RMul(RAbs(g), RAdd(One, Cap(x))))

(***************************************************************************)
(* Softmax over each batch item (everything after the first axis)          *)
(***************************************************************************)
ItemLen(t) == Size(t) \div t.s[1]
Item(t, b) == SubSeq(t.d, (b - 1) * ItemLen(t) + 1, b * ItemLen(t))
RECURSIVE MaxSeq(_, _)
MaxSeq(q, i) == IF i = 1 THEN q[1] ELSE RMax(q[i], MaxSeq(q, i - 1))
Soft(q) == LET m == MaxSeq(q, Len(q))
               e == TLCEval([i \in 1..Len(q) |-> Exp(RSub(q[i], m))])
               z == RSum(e)
           IN TLCEval([i \in 1..Len(q) |-> RDiv(e[i], z)])
SoftItemOk(ty, q, y) ==
  LET v == Soft(q)
      m == MaxSeq(q, Len(q))
      n == Len(q)
  IN /\ \A i \in 1..n : /\ RIsNum(y[i]) /\ RLe(Zero, y[i])
                        /\ Within(ty, y[i], v[i], RAdd(RMul(RMul(RAdd(RInt(4 * (n + 8)), RMul(RInt(4), RSub(m, q[i]))), Unit(ty)), v[i]), RMul(RInt(4), MinNormal(ty))))
     /\ RLe(RAbs(RSub(RSum(y), One)), RMul(RInt(4 * (n + 8)), Unit(ty)))
\* p_i (g_i - sum_j p_j g_j)
SoftGradItem(q, g) == LET p == Soft(q) s == RDot(p, g) IN TLCEval([i \in 1..Len(q) |-> RMul(p[i], RSub(g[i], s))])
SoftGradItemOk(ty, q, g, y) ==
  LET p == Soft(q)
      v == SoftGradItem(q, g)
      s == RDotAbs(p, g)
      n == Len(q)
  IN \A i \in 1..n : CloseAbs(ty, y[i], v[i], 8 * (n + 8), RMul(RAdd(p[i], RMul(Unit(ty), RInt(8))), RAdd(RAbs(g[i]), RMul(s, RInt(2)))))

(***************************************************************************)
(* Whole tensors                                                           *)
(***************************************************************************)
ActRejects(act, x) == act.f = "softmax" /\ Rank(x) < 2
ActFwdOk(ty, act, x, y) ==
  /\ y.s = x.s /\ Len(y.d) = Len(x.d)
  /\ IF act.f = "softmax" THEN \A b \in 1..x.s[1] : SoftItemOk(ty, Item(x, b), Item(y, b))
     ELSE \A k \in 1..Len(x.d) : ActOk(ty, act, x.d[k], y.d[k])
ActBwdOk(ty, act, x, g, y) ==
  /\ y.s = x.s /\ Len(y.d) = Len(x.d)
  /\ IF act.f = "softmax" THEN \A b \in 1..x.s[1] : SoftGradItemOk(ty, Item(x, b), Item(g, b), Item(y, b))
     ELSE \A k \in 1..Len(x.d) : DerOk(ty, act, x.d[k], g.d[k], y.d[k])
\* The exact values (for reference training; at a kink the derivative from the right).
RECURSIVE FlatItems(_, _)
FlatItems(items, i) == IF i > Len(items) THEN <<>> ELSE items[i] \o FlatItems(items, i + 1)
ActVal(act, x) == IF act.f = "softmax" THEN T(x.s, FlatItems([b \in 1..x.s[1] |-> Soft(Item(x, b))], 1))
                  ELSE Map(x, LAMBDA v : F(act, v))
ActGradVal(act, x, g) == IF act.f = "softmax" THEN T(x.s, FlatItems([b \in 1..x.s[1] |-> SoftGradItem(Item(x, b), Item(g, b))], 1))
                         ELSE T(x.s, TLCEval([k \in 1..Len(x.d) |-> RMul(g.d[k], CHOOSE d \in D(act, x.d[k]) : \A e \in D(act, x.d[k]) : RLe(e, d))]))
=============================================================================

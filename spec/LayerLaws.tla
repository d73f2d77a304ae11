------------------------------- MODULE LayerLaws -------------------------------
(***************************************************************************)
(* What makes the layers' definitions right, independently of them:        *)
(* backward passes are the derivatives of the forward passes, and the      *)
(* forward passes obey the identities by which one would define them.      *)
(***************************************************************************)
EXTENDS Layers, Losses

Step == RLit("1e-9")
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(RLit("1e-13"), RAdd(One, RAdd(RAbs(a), RAbs(b)))))
NearT(a, b) == a.s = b.s /\ Len(a.d) = Len(b.d) /\ \A k \in 1..Len(a.d) : Near(a.d[k], b.d[k])
Moved(t, k, h) == [t EXCEPT !.d[k] = RAdd(@, h)]
\* The number whose derivatives backward(g) gives.
Phi(L, x, g) == RDot(g.d, FwdVal(L, x).d)
Slope(up, down) == RDiv(RSub(up, down), RMul(Two, Step))
InputGradient(L, x, g) ==
  LET y == BwdVal([L EXCEPT !.x = x, !.seen = TRUE], g).y
  IN /\ y.s = x.s
     /\ \A k \in 1..Len(x.d) : Near(y.d[k], Slope(Phi(L, Moved(x, k, Step), g), Phi(L, Moved(x, k, RNeg(Step)), g)))
WithW(L, j, k, h) == [L EXCEPT !.ws[j].d[k] = RAdd(@, h)]
ParameterGradients(L, x, g) ==
  LET gs == BwdVal([L EXCEPT !.x = x, !.seen = TRUE], g).gs
  IN /\ Len(gs) = Len(L.ws)
     /\ \A j \in 1..Len(gs) : /\ gs[j].s = L.ws[j].s
                              /\ \A k \in 1..Len(gs[j].d) : Near(gs[j].d[k], Slope(Phi(WithW(L, j, k, Step), x, g), Phi(WithW(L, j, k, RNeg(Step)), x, g)))
GradientsRight(L, x, g) == InputGradient(L, x, g) /\ ParameterGradients(L, x, g)

\* The batch items from (from 0) to to - 1 of t.
Items(t, from, to) == LET n == Size(t) \div t.s[1] IN T([t.s EXCEPT ![1] = to - from], SubSeq(t.d, from * n + 1, to * n))
Concat(a, b) == T([a.s EXCEPT ![1] = @ + b.s[1]], a.d \o b.d)
\* A batch is processed item by item.
BatchWise(L, x) == \A c \in 1..(x.s[1] - 1) : FwdVal(L, x) = Concat(FwdVal(L, Items(x, 0, c)), FwdVal(L, Items(x, c, x.s[1])))
=============================================================================

----------------------------- MODULE MC_LayerLaws -----------------------------
(***************************************************************************)
(* The laws of LayerLaws for every configuration and input shape in scope. *)
(* A state is a configuration and an input shape; Kind chooses the laws.   *)
(***************************************************************************)
EXTENDS LayerLaws
CONSTANTS Kind, Small
VARIABLES cfg, s

R(n) == 1..n
Acts == {"relu", "leaky", "sigmoid", "tanh", "swish", "mish"}
\* Convolutions and poolings whose window fits into the padded input.
Fits2(c, k1, k2, st, pad, dil, x) == OutDim(x[3], k1, st, pad, dil) > 0 /\ OutDim(x[4], k2, st, pad, dil) > 0
                                     /\ x[3] + 2 * pad >= dil * (k1 - 1) + 1 /\ x[4] + 2 * pad >= dil * (k2 - 1) + 1
Init ==
  CASE Kind = "fc" -> \E i \in R(Small), o \in R(Small), b \in 0..Small : cfg = <<i, o>> /\ s = IF b = 0 THEN <<i>> ELSE <<b, i>>
    [] Kind = "conv" -> \E ci \in R(2), co \in R(2), k1 \in R(Small), k2 \in R(2), st \in R(2), pad \in 0..1, dil \in R(2), h \in R(Small + 1), w \in R(3), n \in R(2) :
                          /\ n + ci + co <= 4
                          /\ Fits2(<<>>, k1, k2, st, pad, dil, <<n, ci, h, w>>)
                          /\ cfg = <<ci, co, k1, k2, st, pad, dil>> /\ s = <<n, ci, h, w>>
    [] Kind = "pool" -> \E k \in R(Small), st \in R(Small), pad \in 0..1, h \in R(Small + 2), w \in R(Small), n \in R(2), ch \in R(2) :
                          /\ pad < k \/ pad = 0
                          /\ n + ch <= 3
                          /\ Fits2(<<>>, k, k, st, pad, 1, <<n, ch, h, w>>)
                          /\ cfg = <<k, st, pad>> /\ s = <<n, ch, h, w>>
    [] Kind = "flat" -> \E r \in 2..4 : \E t \in [1..r -> R(Small)] : s = t /\ cfg = <<>>
    [] Kind = "bn" -> \E f \in R(2), n \in R(Small), h \in 0..2 : cfg = <<f>> /\ s = (IF h = 0 THEN <<n, f>> ELSE <<n, f, h, 2>>)
    [] Kind = "act" -> \E f \in Acts \cup {"softmax"}, r \in 2..3 : \E t \in [1..r -> R(Small)] : cfg = <<f>> /\ s = t
    [] Kind = "loss" -> \E l \in {"mse", "cce"}, r \in 1..3 : \E t \in [1..r -> R(Small)] : cfg = <<l>> /\ s = t /\ (l = "cce" => r = 2)
Next == FALSE /\ UNCHANGED <<cfg, s>>

\* Numbers in no particular order, all different.
Scramble(k, a) == RDiv(RInt(((k * a) % 101) - 50), RInt(16))
Ten(t, a) == T(t, TLCEval([k \in 1..Prod(t) |-> Scramble(k, a)]))
X == Ten(s, 37)
L == LET ws == CASE Kind = "fc" -> <<Ten(<<cfg[1], cfg[2]>>, 23), Ten(<<1, cfg[2]>>, 59)>>
                 [] Kind = "conv" -> <<Ten(<<cfg[2], cfg[1], cfg[3], cfg[4]>>, 23), Ten(<<cfg[2], 1>>, 59)>>
                 [] OTHER -> <<>>
         M == MakeLayer([k |-> IF Kind = "loss" THEN "flat" ELSE Kind, cfg |-> cfg, f |-> IF Kind = "act" THEN cfg[1] ELSE "-",
                         a |-> CASE Kind = "bn" -> "0x1p-3" [] Kind = "act" -> "0x1p-3" [] OTHER -> "0", b |-> "0.75"], ws)
     IN IF Kind = "bn" THEN [M EXCEPT !.ws = <<Ten(<<1, cfg[1]>>, 23), Ten(<<1, cfg[1]>>, 59)>>] ELSE M
Y == FwdVal(L, X)
G == Ten(Y.s, 71)

(***************************************************************************)
(* All layers: shapes, gradients, independence of the batch items          *)
(***************************************************************************)
Gradient == GradientsRight(L, X, G)
\* backward is linear in the upstream gradient
Linear == LET B(g) == BwdVal([L EXCEPT !.x = X, !.seen = TRUE], g)
              g2 == Ten(Y.s, 13)
              sum == T(Y.s, [k \in 1..Len(Y.d) |-> RAdd(G.d[k], RMul(Two, g2.d[k]))])
              a == B(G) b == B(g2) c == B(sum)
              Comb(p, q, r) == \A k \in 1..Len(r.d) : Near(r.d[k], RAdd(p.d[k], RMul(Two, q.d[k])))
          IN Comb(a.y, b.y, c.y) /\ \A i \in 1..Len(c.gs) : Comb(a.gs[i], b.gs[i], c.gs[i])
Batches == Kind # "bn" /\ Len(s) > 1 => BatchWise(L, X)
\* Gradients of a batch: those of its parts, side by side for the input, added for the parameters.
BatchGradients ==
  Kind # "bn" /\ Len(s) > 1 => \A c \in 1..(s[1] - 1) :
    LET B(x, g) == BwdVal([L EXCEPT !.x = x, !.seen = TRUE], g)
        all == B(X, G)
        p == B(Items(X, 0, c), Items(G, 0, c))
        q == B(Items(X, c, s[1]), Items(G, c, s[1]))
    IN /\ NearT(all.y, Concat(p.y, q.y))
       /\ \A i \in 1..Len(all.gs) : NearT(all.gs[i], T(p.gs[i].s, [k \in 1..Len(p.gs[i].d) |-> RAdd(p.gs[i].d[k], q.gs[i].d[k])]))

(***************************************************************************)
(* One kind each                                                           *)
(***************************************************************************)
\* A sample is a batch of one; the inner product of row and column; zero weights leave the biases.
FullyConnected == Kind = "fc" =>
  /\ Len(s) = 1 => FwdVal(L, T(<<1, s[1]>>, X.d)).d = Y.d /\ Y.s = <<cfg[2]>>
  /\ \A k \in 1..Len(Y.d) : LET b == (k - 1) \div cfg[2] o == (k - 1) % cfg[2] IN
       Y.d[k] = RAdd(RSum([i \in 1..cfg[1] |-> RMul(X.d[b * cfg[1] + i], L.ws[1].d[(i - 1) * cfg[2] + o + 1])]), L.ws[2].d[o + 1])

Put(t, at(_), to) == Gen(to, LAMBDA ix : at(ix))
Padded(x, p) == Gen(<<x.s[1], x.s[2], x.s[3] + 2 * p, x.s[4] + 2 * p>>, LAMBDA ix : PadAt(x, ix[1], ix[2], ix[3] - p, ix[4] - p))
Dilated(w, d) == Gen(<<w.s[1], w.s[2], (w.s[3] - 1) * d + 1, (w.s[4] - 1) * d + 1>>,
                     LAMBDA ix : IF ix[3] % d = 0 /\ ix[4] % d = 0 THEN At(w, <<ix[1], ix[2], ix[3] \div d, ix[4] \div d>>) ELSE Zero)
Thinned(y, d) == Gen(<<y.s[1], y.s[2], (y.s[3] - 1) \div d + 1, (y.s[4] - 1) \div d + 1>>, LAMBDA ix : At(y, <<ix[1], ix[2], ix[3] * d, ix[4] * d>>))
Convolution == Kind = "conv" =>
  /\ Y.s = ConvShape(cfg, X)
  \* padding is a frame of zeros, dilation a kernel with zeros in between, stride every so many of all results
  /\ Y = FwdVal([L EXCEPT !.cfg[6] = 0], Padded(X, cfg[6]))
  /\ LET w == Dilated(L.ws[1], cfg[7])
     IN Y = FwdVal([L EXCEPT !.ws[1] = w, !.cfg = <<cfg[1], cfg[2], w.s[3], w.s[4], cfg[5], cfg[6], 1>>], X)
  /\ Y = Thinned(FwdVal([L EXCEPT !.cfg[5] = 1], X), cfg[5])
  \* a kernel of one element is a fully connected layer on every pixel
  /\ cfg[3] = 1 /\ cfg[4] = 1 /\ cfg[5] = 1 /\ cfg[6] = 0 =>
       \A b \in 0..(s[1] - 1), i \in 0..(s[3] - 1), j \in 0..(s[4] - 1) :
         LET F1 == FwdVal([Base("fc") EXCEPT !.ws = <<Val(Transpose(T(<<cfg[2], cfg[1]>>, L.ws[1].d), 0, 1)), T(<<1, cfg[2]>>, L.ws[2].d)>>],
                          T(<<cfg[1]>>, [c \in 1..cfg[1] |-> At(X, <<b, c - 1, i, j>>)]))
         IN \A o \in 1..cfg[2] : F1.d[o] = At(Y, <<b, o - 1, i, j>>)
  \* a kernel as large as the padded input is an inner product
  /\ Size(Y) = s[1] * cfg[2] /\ cfg[5] = 1 /\ cfg[7] = 1 =>
       \A b \in 0..(s[1] - 1), o \in 0..(cfg[2] - 1) :
         At(Y, <<b, o, 0, 0>>) = RAdd(RDot(Items(Padded(X, cfg[6]), b, b + 1).d, Kernel(L.ws[1], o)), L.ws[2].d[o + 1])
Elements(q) == {q[i] : i \in 1..Len(q)}
Pooling == Kind = "pool" =>
  /\ Y.s = PoolShape(cfg, X)
  \* every result is an element; it does not decrease when an element grows; windows of one element keep everything
  /\ Elements(Y.d) \subseteq Elements(X.d)
  /\ \A k \in 1..Len(X.d) : LET z == FwdVal(L, Moved(X, k, RInt(3))) IN \A i \in 1..Len(Y.d) : RLe(Y.d[i], z.d[i])
  /\ cfg[1] = 1 /\ cfg[2] = 1 => Y = X
  /\ cfg[1] >= s[3] + cfg[3] /\ cfg[1] >= s[4] + cfg[3] =>
       \A b \in 0..(s[1] - 1), c \in 0..(s[2] - 1) : At(Y, <<b, c, 0, 0>>) = MaxIn(X, {((b * s[2]) + c) * s[3] * s[4] + i : i \in 1..(s[3] * s[4])})
  \* padding never wins: it is a frame of numbers below all others
  /\ LET low == RInt(-1000)
         px == Gen(<<s[1], s[2], s[3] + 2 * cfg[3], s[4] + 2 * cfg[3]>>,
                   LAMBDA ix : LET i == ix[3] - cfg[3] j == ix[4] - cfg[3] IN IF i < 0 \/ j < 0 \/ i >= s[3] \/ j >= s[4] THEN low ELSE At(X, <<ix[1], ix[2], i, j>>))
     IN Y = FwdVal([L EXCEPT !.cfg[3] = 0], px)
  \* no gradient is lost
  /\ RSum(BwdVal([L EXCEPT !.x = X, !.seen = TRUE], G).y.d) = RSum(G.d)
Flattening == Kind = "flat" => /\ Y.d = X.d /\ Y.s = <<s[1], Prod(Tail(s))>>
                               /\ BwdVal([L EXCEPT !.x = X, !.seen = TRUE], Y).y = X

Moment(y, f) == LET q == OfFeature(y, f) n == RInt(Len(q)) m == RDiv(RSum(q), n)
                IN [m |-> m, v |-> RDiv(RSum([k \in 1..Len(q) |-> RMul(RSub(q[k], m), RSub(q[k], m))]), n)]
Normalisation == Kind = "bn" =>
  \A f \in 1..cfg[1] :
    LET st == Moment(X, f) ot == Moment(Y, f)
        gamma == L.ws[1].d[f] beta == L.ws[2].d[f]
        ev == [L EXCEPT !.train = FALSE, !.rm[f] = BExact(st.m), !.rv[f] = BExact(st.v)]
        d == BwdVal([L EXCEPT !.x = X, !.seen = TRUE], G)
        dx == OfFeature(d.y, f)
    IN \* the output has mean beta and (up to eps) standard deviation gamma
       /\ Near(ot.m, beta)
       /\ Near(RMul(ot.v, RAdd(st.v, L.eps)), RMul(RMul(gamma, gamma), st.v))
       \* with the batch's own statistics evaluation does the same
       /\ LET z == FwdVal(ev, X) IN \A k \in 1..Len(X.d) : FeatureAt(X, k) = f => Near(z.d[k], Y.d[k])
       \* shifting a feature changes nothing; the gradient along a shift is zero
       /\ LET sh == T(s, [k \in 1..Len(X.d) |-> IF FeatureAt(X, k) = f THEN RAdd(X.d[k], RInt(9)) ELSE X.d[k]]) IN NearT(FwdVal(L, sh), Y)
       /\ Near(RSum(dx), Zero)
       \* running statistics: a weighted average
       /\ LET A == AfterFwd("x", L, X, Y) IN /\ Near(A.rm[f].c, RDiv(st.m, RInt(4))) /\ Near(A.rv[f].c, RDiv(RAdd(RInt(3), st.v), RInt(4)))
       \* gradients of beta and gamma
       /\ Near(d.gs[2].d[f], RSum(OfFeature(G, f)))
       /\ gamma # Zero => Near(RMul(d.gs[1].d[f], gamma), RSum([k \in 1..Len(OfFeature(G, f)) |-> RMul(OfFeature(G, f)[k], RSub(OfFeature(Y, f)[k], beta))]))

(***************************************************************************)
(* Activation functions on a grid, softmax, losses                         *)
(***************************************************************************)
Grid == {RDiv(RInt(i), RInt(4)) : i \in -40..40}
A == [f |-> cfg[1], a |-> RLit("0x1p-3")]
MinusOf(f, x) == F([A EXCEPT !.f = f], RNeg(x))
Activations1 == Kind = "act" /\ cfg[1] # "softmax" /\ Prod(s) = 1 => \A x \in Grid :
  LET y == F(A, x) IN
  /\ \E d \in D(A, x) : Near(d, RDiv(RSub(F(A, RAdd(x, Step)), y), Step)) \/ RLe(RAbs(RSub(d, RDiv(RSub(F(A, RAdd(x, Step)), y), Step))), RLit("1e-8"))
  /\ \A d \in D(A, x) : \E h \in {Step, RNeg(Step)} : RLe(RAbs(RSub(d, RDiv(RSub(F(A, RAdd(x, h)), y), h))), RLit("1e-8"))
  /\ CASE cfg[1] = "relu" -> y = (IF RLe(x, Zero) THEN Zero ELSE x)
       [] cfg[1] = "leaky" -> RAdd(F(A, x), F(A, RNeg(x))) = RMul(RAbs(x), RSub(One, A.a))
       [] cfg[1] = "sigmoid" -> Near(RAdd(y, F(A, RNeg(x))), One) /\ RLt(Zero, y) /\ RLt(y, One)
                                /\ Near(y, RDiv(RAdd(One, F([A EXCEPT !.f = "tanh"], RDiv(x, Two))), Two))
       [] cfg[1] = "tanh" -> Near(y, RNeg(F(A, RNeg(x)))) /\ RLt(RAbs(y), One)
       [] cfg[1] = "swish" -> Near(RSub(y, F(A, RNeg(x))), x)
       [] cfg[1] = "mish" -> \* tanh(ln(1 + e^x)) = ((1 + e^x)^2 - 1) / ((1 + e^x)^2 + 1)
                             LET e == RAdd(One, Exp(x)) q == RMul(e, e) IN Near(y, RMul(x, RDiv(RSub(q, One), RAdd(q, One))))
Softmax1 == Kind = "act" /\ cfg[1] = "softmax" =>
  \A b \in 1..s[1] :
    LET q == Item(X, b) p == Item(Y, b) IN
    /\ Near(RSum(p), One) /\ \A k \in 1..Len(p) : RLt(Zero, p[k])
    /\ \A i, j \in 1..Len(q) : Near(RDiv(p[i], p[j]), Exp(RSub(q[i], q[j])))
    /\ LET z == Soft([k \in 1..Len(q) |-> RAdd(q[k], RInt(700))]) IN \A k \in 1..Len(q) : Near(z[k], p[k])
LossesRight == Kind = "loss" =>
  LET pr == IF cfg[1] = "mse" THEN X ELSE T(s, [k \in 1..Prod(s) |-> RDiv(RInt(1 + ((k * 7) % 11)), RInt(13))])
      tg == Ten(s, 53)
      g == LossGradVal(cfg[1], pr, tg)
      V(p) == LossVal(cfg[1], p, tg).d[1]
  IN /\ g.s = s
     /\ \A k \in 1..Prod(s) : Near(g.d[k], Slope(V(Moved(pr, k, Step)), V(Moved(pr, k, RNeg(Step)))))
     /\ cfg[1] = "mse" => RLe(Zero, V(pr)) /\ LossVal("mse", pr, pr).d = <<Zero>>
     \* the categorical cross entropy of a distribution is least where the prediction is the target
     /\ cfg[1] = "cce" /\ s[2] = 2 =>
          LET row(a) == [k \in 1..Prod(s) |-> IF k % 2 = 1 THEN RDiv(RInt(a), RInt(8)) ELSE RDiv(RInt(8 - a), RInt(8))]
          IN \A a, b \in 1..7 : a # b => RLt(LossVal("cce", T(s, row(a)), T(s, row(a))).d[1], LossVal("cce", T(s, row(b)), T(s, row(a))).d[1])
=============================================================================

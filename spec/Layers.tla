-------------------------------- MODULE Layers --------------------------------
(***************************************************************************)
(* The layers as state machines.  A layer is a record with                 *)
(*   k      its kind: fc conv pool flat bn drop act                        *)
(*   train  TRUE in training mode                                          *)
(*   seen   TRUE once a forward pass has been recorded, x its input        *)
(*   ws     the parameters                                                 *)
(*   gs     the parameters' gradients when they were last looked at, and   *)
(*   due    the backward pass since, if any: the gradients it left are     *)
(*          judged when they are looked at next                            *)
(* and the configuration of its kind.  For every kind the module says      *)
(* which inputs a call rejects, which results are right (...Ok, up to      *)
(* rounding), which state the call leaves (After...), and the exact values *)
(* (...Val) from which reference training is computed.                     *)
(***************************************************************************)
EXTENDS Activations

NoTensor == T(<<1>>, <<Zero>>)
Base(k) == [k |-> k, train |-> TRUE, seen |-> FALSE, x |-> NoTensor, ws |-> <<>>, gs |-> <<>>, due |-> <<>>]

(***************************************************************************)
(* Fully connected: x W + b, rank 1 is one sample                          *)
(***************************************************************************)
Rows(x) == IF Rank(x) = 1 THEN T(<<1, x.s[1]>>, x.d) ELSE x
FcRejects(L, x) == Rows(x).s[2] # L.ws[1].s[1]
FcFwd(L, x) ==
  LET p == MatMul(Rows(x), L.ws[1])
      bb == BroadcastTo(L.ws[2], p.s)
      s == IF Rank(x) = 1 THEN <<p.s[2]>> ELSE p.s
  IN Approxed(T(s, [k \in 1..Len(p.d) |-> RAdd(p.d[k], bb.d[k])]),
              [k \in 1..Len(p.d) |-> RAdd(p.m[k], RAbs(bb.d[k]))], p.n + 1)
\* The gradient of the input, and those of the weights and biases.
FcBwdX(L, g) == [MatMul(Rows(g), Val(Transpose(L.ws[1], 0, 1))) EXCEPT !.s = L.x.s]
FcBwdW(L, g) == LET g2 == Rows(g) IN <<MatMul(Val(Transpose(Rows(L.x), 0, 1)), g2), [SumAxes(g2, {0}) EXCEPT !.s = L.ws[2].s]>>

(***************************************************************************)
(* 2-D convolution (cross-correlation)                                     *)
(* cfg = <<in, out, kernelHeight, kernelWidth, stride, padding, dilation>> *)
(***************************************************************************)
OutDim(n, k, stride, pad, dil) == (n + 2 * pad - dil * (k - 1) - 1) \div stride + 1
ConvShape(c, x) == <<x.s[1], c[2], OutDim(x.s[3], c[3], c[5], c[6], c[7]), OutDim(x.s[4], c[4], c[5], c[6], c[7])>>
\* x, zero outside
PadAt(x, b, ch, i, j) == IF i < 0 \/ i >= x.s[3] \/ j < 0 \/ j >= x.s[4] THEN Zero ELSE x.d[((b * x.s[2] + ch) * x.s[3] + i) * x.s[4] + j + 1]
\* What the kernel sees at output position (i, j) of batch item b.
Patch(c, x, b, i, j) ==
  LET ks == <<c[1], c[3], c[4]>>
  IN TLCEval([t \in 1..Prod(ks) |-> LET q == IndexOf(ks, t) IN PadAt(x, b, q[1], i * c[5] + q[2] * c[7] - c[6], j * c[5] + q[3] * c[7] - c[6])])
\* All patches, one for each position of <<batch, outHeight, outWidth>>.
Patches(c, x) == LET os == ConvShape(c, x)
                     ps == <<os[1], os[3], os[4]>>
                 IN TLCEval([p \in 1..Prod(ps) |-> LET q == IndexOf(ps, p) IN Patch(c, x, q[1], q[2], q[3])])
PatchNo(os, ix) == (ix[1] * os[3] + ix[3]) * os[4] + ix[4] + 1
Kernel(w, oc) == LET n == Prod(Tail(w.s)) IN SubSeq(w.d, oc * n + 1, (oc + 1) * n)
ConvFwd(L, x) ==
  LET c == L.cfg
      os == ConvShape(c, x)
      ps == Patches(c, x)
      ker == TLCEval([o \in 1..c[2] |-> Kernel(L.ws[1], o - 1)])
      e == TLCEval([k \in 1..Prod(os) |->
             LET ix == IndexOf(os, k) p == ps[PatchNo(os, ix)] w == ker[ix[2] + 1] b == L.ws[2].d[ix[2] + 1]
             IN <<RAdd(RDot(p, w), b), RAdd(RDotAbs(p, w), RAbs(b))>>])
  IN Approxed(T(os, [k \in 1..Len(e) |-> e[k][1]]), [k \in 1..Len(e) |-> e[k][2]], c[1] * c[3] * c[4] + 1)
\* The part of g that belongs to output channel oc, in the order of the patches.
OfChannel(g, oc) == LET ps == <<g.s[1], g.s[3], g.s[4]>>
                    IN TLCEval([p \in 1..Prod(ps) |-> LET q == IndexOf(ps, p) IN At(g, <<q[1], oc, q[2], q[3]>>)])
\* Output row that kernel row kr reads input row r for, or -1.
OutRow(r, kr, c, n) == LET z == r + c[6] - kr * c[7] IN IF z < 0 \/ z % c[5] # 0 \/ z \div c[5] >= n THEN -1 ELSE z \div c[5]
ConvBwdX(L, g) ==
  LET c == L.cfg
      x == L.x
      ks == <<c[2], c[3], c[4]>>
      gx == TLCEval([k \in 1..Len(x.d) |->
              LET ix == IndexOf(x.s, k)
                  gg == TLCEval([t \in 1..Prod(ks) |-> LET q == IndexOf(ks, t)
                                                          oh == OutRow(ix[3], q[2], c, g.s[3])
                                                          ow == OutRow(ix[4], q[3], c, g.s[4])
                                                      IN IF oh < 0 \/ ow < 0 THEN Zero ELSE At(g, <<ix[1], q[1], oh, ow>>)])
                  ww == TLCEval([t \in 1..Prod(ks) |-> LET q == IndexOf(ks, t) IN At(L.ws[1], <<q[1], ix[2], q[2], q[3]>>)])
              IN <<RDot(gg, ww), RDotAbs(gg, ww)>>])
  IN Approxed(T(x.s, [k \in 1..Len(gx) |-> gx[k][1]]), [k \in 1..Len(gx) |-> gx[k][2]], Prod(ks))
ConvBwdW(L, g) ==
  LET c == L.cfg
      ps == Patches(c, L.x)
      gc == TLCEval([o \in 1..c[2] |-> OfChannel(g, o - 1)])
      ws == L.ws[1].s
      gw == TLCEval([k \in 1..Prod(ws) |-> LET ix == IndexOf(ws, k)
                                                t == (ix[2] * c[3] + ix[3]) * c[4] + ix[4] + 1
                                                col == TLCEval([p \in 1..Len(ps) |-> ps[p][t]])
                                            IN <<RDot(gc[ix[1] + 1], col), RDotAbs(gc[ix[1] + 1], col)>>])
      gb == TLCEval([o \in 1..c[2] |-> <<RSum(gc[o]), RSumAbs(gc[o])>>])
      n == Len(ps)
  IN <<Approxed(T(ws, [k \in 1..Len(gw) |-> gw[k][1]]), [k \in 1..Len(gw) |-> gw[k][2]], n),
       Approxed(T(L.ws[2].s, [o \in 1..c[2] |-> gb[o][1]]), [o \in 1..c[2] |-> gb[o][2]], n)>>

(***************************************************************************)
(* Max pooling, cfg = <<window, stride, padding>>                          *)
(***************************************************************************)
PoolShape(c, x) == <<x.s[1], x.s[2], OutDim(x.s[3], c[1], c[2], c[3], 1), OutDim(x.s[4], c[1], c[2], c[3], 1)>>
\* Positions (in x.d) of the window of output index ix; padding is not part of it.
Window(c, x, ix) ==
  LET rows == {r \in (ix[3] * c[2] - c[3])..(ix[3] * c[2] - c[3] + c[1] - 1) : r >= 0 /\ r < x.s[3]}
      cols == {r \in (ix[4] * c[2] - c[3])..(ix[4] * c[2] - c[3] + c[1] - 1) : r >= 0 /\ r < x.s[4]}
  IN {((ix[1] * x.s[2] + ix[2]) * x.s[3] + r) * x.s[4] + q + 1 : r \in rows, q \in cols}
MaxIn(x, w) == LET i == CHOOSE i \in w : \A j \in w : RLe(x.d[j], x.d[i]) IN x.d[i]
ArgMax(x, w) == LET m == MaxIn(x, w) IN {i \in w : x.d[i] = m}
PoolFwd(L, x) == LET os == PoolShape(L.cfg, x) IN Exact(Gen(os, LAMBDA ix : MaxIn(x, Window(L.cfg, x, ix))))
\* For every window the set of positions that may receive its gradient.
Targets(L, g) == TLCEval([k \in 1..Len(g.d) |-> ArgMax(L.x, Window(L.cfg, L.x, IndexOf(g.s, k)))])
\* What is routed where: ch gives the chosen position of every window.
Routed(L, g, ch) == TLCEval([i \in 1..Len(L.x.d) |->
                      LET ks == {k \in 1..Len(g.d) : ch[k] = i}
                          q == SetSeq(ks)
                      IN [v |-> RSum([j \in 1..Len(q) |-> g.d[q[j]]]), m |-> RSumAbs([j \in 1..Len(q) |-> g.d[q[j]]]), n |-> Len(q)]])
\* Some choice for the windows op[k], op[k + 1], ... explains y; acc holds what was routed so far.  A position is
\* judged with the last of these windows that may choose it: done[k] are the positions judged with op[k].
Into(acc, i, v) == [acc EXCEPT ![i] = [v |-> RAdd(@.v, v), m |-> RAdd(@.m, RAbs(v)), n |-> @.n + 1]]
PlaceOk(ty, y, acc, i) == Close(ty, y.d[i], acc[i].v, acc[i].m, IF acc[i].n <= 1 THEN 0 ELSE acc[i].n)
RECURSIVE SomeChoice(_, _, _, _, _, _, _, _)
SomeChoice(ty, g, y, tg, op, done, k, acc) ==
  k > Len(op) \/ \E i \in tg[op[k]] : LET a == TLCEval(Into(acc, i, g.d[op[k]]))
                                      IN (\A p \in done[k] : PlaceOk(ty, y, a, p)) /\ SomeChoice(ty, g, y, tg, op, done, k + 1, a)
PoolBwdOk(ty, L, g, y) ==
  LET tg == Targets(L, g)
      n == Len(g.d)
      op == SetSeq({k \in 1..n : Cardinality(tg[k]) > 1})   \* windows with a tie
      ch == TLCEval([k \in 1..n |-> IF Cardinality(tg[k]) = 1 THEN CHOOSE i \in tg[k] : TRUE ELSE 0])
      acc == Routed(L, g, ch)
      last == TLCEval([k \in 1..Len(op) |-> {p \in tg[op[k]] : \A j \in (k + 1)..Len(op) : p \notin tg[op[j]]}])
      open == UNION {tg[op[k]] : k \in 1..Len(op)}
  IN /\ y.s = L.x.s /\ Len(y.d) = Len(L.x.d)
     /\ \A i \in (1..Len(L.x.d)) \ open : PlaceOk(ty, y, acc, i)
     /\ SomeChoice(ty, g, y, tg, op, last, 1, acc)
\* The exact value when the first maximum of the window in row-major order is chosen.
PoolBwdVal(L, g) == LET tg == Targets(L, g)
                        ch == TLCEval([k \in 1..Len(g.d) |-> CHOOSE i \in tg[k] : \A j \in tg[k] : i <= j])
                        r == Routed(L, g, ch)
                    IN T(L.x.s, [i \in 1..Len(r) |-> r[i].v])

(***************************************************************************)
(* Batch normalisation.  ws = <<gamma, beta>>; eps, mom; rm, rv: running   *)
(* mean and variance, sequences of balls because they are never observed.  *)
(***************************************************************************)
Features(x) == x.s[2]
\* The elements that share feature f (from 1).
OfFeature(x, f) == LET inner == ProdOf(x.s, 3)
                   IN TLCEval([k \in 1..(x.s[1] * inner) |-> x.d[((k - 1) \div inner) * x.s[2] * inner + (f - 1) * inner + ((k - 1) % inner) + 1]])
FeatureAt(x, k) == LET inner == ProdOf(x.s, 3) IN (((k - 1) \div inner) % x.s[2]) + 1
\* Number of position k among the elements of its feature.
PlaceAt(x, k) == LET inner == ProdOf(x.s, 3) IN ((k - 1) \div (inner * x.s[2])) * inner + ((k - 1) % inner) + 1
\* Statistics of one feature as balls.
Stats(ty, q) ==
  LET n == Len(q)
      c == RInt(n)
      mu == Ball(RDiv(RSum(q), c), Tol(ty, RDiv(RSumAbs(q), c), n + 2))
      dev == TLCEval([k \in 1..n |-> RSub(q[k], mu.c)])
      var == RDiv(RDot(dev, dev), c)
      dr == TLCEval([k \in 1..n |-> RAdd(mu.r, RMul(Unit(ty), RAdd(RAbs(dev[k]), mu.r)))])
      err == RDiv(RSum([k \in 1..n |-> RAdd(RMul(RMul(Two, RAbs(dev[k])), dr[k]), RMul(dr[k], dr[k]))]), c)
  IN [mean |-> mu, var |-> Ball(var, RAdd(err, Tol(ty, RAdd(var, err), n + 4)))]
Norm(ty, x, mean, var, eps) == BDiv(ty, BSub(ty, BExact(x), mean), BSqrt(ty, BAbove(ty, var, eps)))
Affine(ty, b, gamma, beta) == BAdd(ty, BMul(ty, b, BExact(gamma)), BExact(beta))
BnTrain(ty, L, x) == \* statistics and normalised elements of every feature
  TLCEval([f \in 1..Features(x) |->
    LET q == OfFeature(x, f) st == Stats(ty, q)
    IN [st |-> st, xh |-> TLCEval([k \in 1..Len(q) |-> Norm(ty, q[k], st.mean, st.var, L.eps)])]])
BnBalls(ty, L, x) ==
  IF L.train THEN LET bt == BnTrain(ty, L, x)
                  IN TLCEval([k \in 1..Len(x.d) |-> LET f == FeatureAt(x, k) IN Affine(ty, bt[f].xh[PlaceAt(x, k)], L.ws[1].d[f], L.ws[2].d[f])])
  ELSE TLCEval([k \in 1..Len(x.d) |-> LET f == FeatureAt(x, k) IN Affine(ty, Norm(ty, x.d[k], L.rm[f], L.rv[f], L.eps), L.ws[1].d[f], L.ws[2].d[f])])
Blend(ty, mom, old, new) == BAdd(ty, BMul(ty, BExact(mom), old), BMul(ty, BSub(ty, BExact(One), BExact(mom)), new))
AllIn(ty, y, b) == Len(y.d) = Len(b) /\ \A k \in 1..Len(b) : InBall(ty, y.d[k], b[k])
RECURSIVE BSumOf(_, _, _)
BSumOf(ty, q, i) == IF i = 0 THEN BExact(Zero) ELSE BAdd(ty, BSumOf(ty, q, i - 1), q[i])
BSum(ty, q) == BSumOf(ty, q, Len(q))
\* Gradients, per feature: of gamma and beta, and of the input.
BnSums(ty, bt, x, g) ==
  TLCEval([f \in 1..Features(x) |->
    LET q == OfFeature(g, f)
        n == Len(q)
    IN [dg |-> BSum(ty, TLCEval([k \in 1..n |-> BMul(ty, BExact(q[k]), bt[f].xh[k])])),
        db |-> BSum(ty, TLCEval([k \in 1..n |-> BExact(q[k])]))]])
BnBwdX(ty, L, g) ==
  LET bt == BnTrain(ty, L, L.x)
      ss == BnSums(ty, bt, L.x, g)
      dx == TLCEval([f \in 1..Features(L.x) |->
       LET q == OfFeature(g, f)
           n == Len(q)
           inv == BDiv(ty, BExact(One), BSqrt(ty, BAbove(ty, bt[f].st.var, L.eps)))
           sc == BMul(ty, inv, BExact(L.ws[1].d[f]))
           mg == BDiv(ty, ss[f].db, BExact(RInt(n)))
           mgx == BDiv(ty, ss[f].dg, BExact(RInt(n)))
       IN TLCEval([k \in 1..n |-> BMul(ty, sc, BSub(ty, BSub(ty, BExact(q[k]), mg), BMul(ty, bt[f].xh[k], mgx)))])])
  IN TLCEval([k \in 1..Len(L.x.d) |-> dx[FeatureAt(L.x, k)][PlaceAt(L.x, k)]])
BnBwdW(ty, L, g) ==
  LET ss == BnSums(ty, BnTrain(ty, L, L.x), L.x, g)
  IN <<[f \in 1..Len(ss) |-> ss[f].dg], [f \in 1..Len(ss) |-> ss[f].db]>>

(***************************************************************************)
(* Dropout.  The mask is not observed directly but shows in the output.    *)
(***************************************************************************)
Keep(L) == RSub(One, L.rate)
Scaled(L, v) == RDiv(v, Keep(L))
\* An element of a training-mode result: zero, or scaled.
DropElem(ty, L, x, y) == (y = Zero /\ L.rate # Zero) \/ Close(ty, y, Scaled(L, x), RAbs(Scaled(L, x)), 3)
\* What the output shows of the mask: nothing where the input is zero.
MaskOf(x, y) == TLCEval([k \in 1..Len(y.d) |-> IF y.d[k] # Zero THEN "kept" ELSE IF x.d[k] # Zero THEN "dropped" ELSE "either"])
(***************************************************************************)
(* The randomness of the mask, judged over many passes ys of one input     *)
(* without zeros.  Counts of independent events are compared with their    *)
(* expectation at six standard deviations (one false alarm in 10^9).       *)
(***************************************************************************)
\* k successes in n trials of probability p; c >= 1 makes up for trials that overlap.
Plausible(n, k, p, c) == LET dev == RAbs(RSub(k, RMul(RInt(n), p)))
                         IN RLe(RMul(dev, dev), RMul(RInt(36 * c), RAdd(One, RMul(RMul(RInt(n), p), RSub(One, p)))))
KeptOf(y) == TLCEval([k \in 1..Len(y.d) |-> IF y.d[k] = Zero THEN Zero ELSE One])
Together(a, b, lag) == RDot(SubSeq(a, 1, Len(a) - lag), SubSeq(b, lag + 1, Len(b)))
MasksOk(L, x, ys) ==
  LET ms == TLCEval([i \in 1..Len(ys) |-> KeptOf(ys[i])])
      n == Len(x.d)
      N == Len(ys)
      p == Keep(L)
      tot == TLCEval([i \in 1..N |-> RSum(ms[i])])
      lags == {g \in {1, 2, 3, x.s[Len(x.s)], n \div x.s[1]} : g < n}
  IN /\ Plausible(n * N, RSum(tot), p, 1)
     /\ \A i \in 1..N : Plausible(n, tot[i], p, 1)
     /\ \A k \in 1..n : Plausible(N, RSum(TLCEval([i \in 1..N |-> ms[i][k]])), p, 1)
     \* neighbours within a mask, and the same place in later masks, are independent
     /\ \A g \in lags : Plausible((n - g) * N, RSum(TLCEval([i \in 1..N |-> Together(ms[i], ms[i], g)])), RMul(p, p), 4)
     /\ \A d \in {1, 2, 3} : d < N => Plausible(n * (N - d), RSum(TLCEval([i \in 1..(N - d) |-> RDot(ms[i], ms[i + d])])), RMul(p, p), 4)

(***************************************************************************)
(* All kinds                                                               *)
(***************************************************************************)
FwdRejects(L, x) ==
  CASE L.k = "fc" -> FcRejects(L, x)
    [] L.k = "pool" -> Rank(x) # 4
    [] L.k = "flat" -> Rank(x) < 2
    [] L.k = "bn" -> Rank(x) \notin {2, 4}
    [] L.k = "act" -> ActRejects(L.act, x)
    [] OTHER -> FALSE
FlatShape(x) == <<x.s[1], Size(x) \div x.s[1]>>
FwdOk(ty, L, x, y) ==
  CASE L.k = "fc" -> CloseT(ty, y, FcFwd(L, x))
    [] L.k = "conv" -> CloseT(ty, y, ConvFwd(L, x))
    [] L.k = "pool" -> y = Val(PoolFwd(L, x))
    [] L.k = "flat" -> y = T(FlatShape(x), x.d)
    [] L.k = "bn" -> y.s = x.s /\ AllIn(ty, y, BnBalls(ty, L, x))
    [] L.k = "drop" -> IF L.train THEN y.s = x.s /\ Len(y.d) = Len(x.d) /\ \A k \in 1..Len(y.d) : DropElem(ty, L, x.d[k], y.d[k]) ELSE y = x
    [] L.k = "act" -> ActFwdOk(ty, L.act, x, y)
Seen(L, x) == [L EXCEPT !.seen = TRUE, !.x = x]
AfterFwd(ty, L, x, y) ==
  CASE L.k = "bn" -> IF ~L.train THEN L
         ELSE LET bt == BnTrain(ty, L, x)
              IN [Seen(L, x) EXCEPT !.rm = TLCEval([f \in 1..Len(bt) |-> Blend(ty, L.mom, L.rm[f], bt[f].st.mean)]),
                                    !.rv = TLCEval([f \in 1..Len(bt) |-> Blend(ty, L.mom, L.rv[f], bt[f].st.var)])]
    [] L.k = "drop" -> IF L.train THEN [Seen(L, x) EXCEPT !.mask = MaskOf(x, y)] ELSE L
    [] OTHER -> Seen(L, x)
BwdRejects(L, g) ==
  CASE L.k \in {"fc", "conv", "pool", "bn"} -> ~L.seen
    [] L.k = "flat" -> ~L.seen \/ Size(g) # Size(L.x)
    [] L.k = "drop" -> L.train /\ (~L.seen \/ g.s # L.x.s)
    [] L.k = "act" -> ActRejects(L.act, g)
    [] OTHER -> FALSE
\* y: the gradient returned.
BwdOk(ty, L, g, y) ==
  CASE L.k = "fc" -> CloseT(ty, y, FcBwdX(L, g))
    [] L.k = "conv" -> CloseT(ty, y, ConvBwdX(L, g))
    [] L.k = "pool" -> PoolBwdOk(ty, L, g, y)
    [] L.k = "flat" -> y = T(L.x.s, g.d)
    [] L.k = "bn" -> y.s = L.x.s /\ AllIn(ty, y, BnBwdX(ty, L, g))
    [] L.k = "drop" -> IF ~L.train THEN y = g
                                    ELSE /\ y.s = g.s /\ Len(y.d) = Len(g.d)
                                         /\ \A k \in 1..Len(g.d) :
                                              \/ L.mask[k] # "dropped" /\ Close(ty, y.d[k], Scaled(L, g.d[k]), RAbs(Scaled(L, g.d[k])), 3)
                                              \/ L.mask[k] # "kept" /\ L.rate # Zero /\ y.d[k] = Zero
    [] L.k = "act" -> ActBwdOk(ty, L.act, L.x, g, y)
\* gs: the parameter gradients that backward(g) leaves.
GsOk(ty, gs, e) == \A i \in 1..Len(e) : CloseT(ty, gs[i], e[i])
GradsOk(ty, L, g, gs) ==
  /\ Len(gs) = Len(L.ws)
  /\ \A i \in 1..Len(gs) : gs[i].s = L.ws[i].s
  /\ CASE L.k = "fc" -> GsOk(ty, gs, FcBwdW(L, g))
       [] L.k = "conv" -> GsOk(ty, gs, ConvBwdW(L, g))
       [] L.k = "bn" -> LET r == BnBwdW(ty, L, g) IN AllIn(ty, gs[1], r[1]) /\ AllIn(ty, gs[2], r[2])
       [] OTHER -> TRUE
AfterBwd(L, g) == [L EXCEPT !.due = <<[L |-> [L EXCEPT !.due = <<>>, !.gs = <<>>], g |-> g]>>]
\* The layer's parameters and gradients are looked at.
Learnt(L) == L.due # <<>> \/ L.gs # <<>>
SeeOk(ty, L, ws, gs) == /\ ws = L.ws
                        /\ IF L.due = <<>> THEN gs = L.gs ELSE GradsOk(ty, L.due[1].L, L.due[1].g, gs)
AfterSee(L, gs) == [L EXCEPT !.due = <<>>, !.gs = gs]

(***************************************************************************)
(* Exact values                                                            *)
(***************************************************************************)
Centres(s, b) == T(s, [k \in 1..Len(b) |-> b[k].c])
FwdVal(L, x) ==
  CASE L.k = "fc" -> Val(FcFwd(L, x))
    [] L.k = "conv" -> Val(ConvFwd(L, x))
    [] L.k = "pool" -> Val(PoolFwd(L, x))
    [] L.k = "flat" -> T(FlatShape(x), x.d)
    [] L.k = "bn" -> Centres(x.s, BnBalls("x", L, x))
    [] L.k = "drop" -> x   \* (rate 0 or evaluation mode)
    [] L.k = "act" -> ActVal(L.act, x)
BwdVal(L, g) ==
  CASE L.k = "fc" -> [y |-> Val(FcBwdX(L, g)), gs |-> LET r == FcBwdW(L, g) IN <<Val(r[1]), Val(r[2])>>]
    [] L.k = "conv" -> [y |-> Val(ConvBwdX(L, g)), gs |-> LET r == ConvBwdW(L, g) IN <<Val(r[1]), Val(r[2])>>]
    [] L.k = "pool" -> [y |-> PoolBwdVal(L, g), gs |-> <<>>]
    [] L.k = "flat" -> [y |-> T(L.x.s, g.d), gs |-> <<>>]
    [] L.k = "bn" -> [y |-> Centres(L.x.s, BnBwdX("x", L, g)),
                      gs |-> LET r == BnBwdW("x", L, g) IN <<Centres(L.ws[1].s, r[1]), Centres(L.ws[2].s, r[2])>>]
    [] L.k = "drop" -> [y |-> g, gs |-> <<>>]
    [] L.k = "act" -> [y |-> ActGradVal(L.act, L.x, g), gs |-> <<>>]

(***************************************************************************)
(* New layers.  e is the event; ws the parameters the library chose.       *)
(***************************************************************************)
MakeOk(e, ws) ==
  CASE e.k = "fc" -> /\ Len(ws) = 2 /\ ws[1].s = <<e.cfg[1], e.cfg[2]>> /\ ws[2].s = <<1, e.cfg[2]>>
                     /\ \A w \in {ws[1], ws[2]} : Len(w.d) = Prod(w.s) /\ \A i \in 1..Len(w.d) : RIsNum(w.d[i])
    [] e.k = "conv" -> /\ Len(ws) = 2 /\ ws[1].s = <<e.cfg[2], e.cfg[1], e.cfg[3], e.cfg[4]>> /\ ws[2].s = <<e.cfg[2], 1>>
                       /\ \A w \in {ws[1], ws[2]} : Len(w.d) = Prod(w.s) /\ \A i \in 1..Len(w.d) : RIsNum(w.d[i])
    [] OTHER -> ws = <<>>
MakeLayer(e, ws) ==
  LET B == Base(e.k) IN
  CASE e.k = "fc" -> [B EXCEPT !.ws = ws]
    [] e.k = "conv" -> [B EXCEPT !.ws = ws] @@ [cfg |-> e.cfg]
    [] e.k = "pool" -> B @@ [cfg |-> e.cfg]
    [] e.k = "flat" -> B
    [] e.k = "bn" -> LET f == e.cfg[1] IN
         [B EXCEPT !.ws = <<Fill(<<1, f>>, One), Fill(<<1, f>>, Zero)>>]
         @@ [eps |-> RLit(e.a), mom |-> RLit(e.b), rm |-> [i \in 1..f |-> BExact(Zero)], rv |-> [i \in 1..f |-> BExact(One)]]
    [] e.k = "drop" -> B @@ [rate |-> RLit(e.a), mask |-> <<>>]
    [] e.k = "act" -> B @@ [act |-> [f |-> e.f, a |-> RLit(e.a)]]
=============================================================================

------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensors as mathematical values: a shape and the row-major sequence of   *)
(* the elements.  Every operation of the library is a function here.       *)
(*                                                                         *)
(* A tensor is [s |-> shape, d |-> elements].  Dimensions, axes and indices *)
(* are numbered from 0 as in the library; sequences of TLA+ start at 1.    *)
(* An expected result is a tensor with two more fields, the magnitudes m   *)
(* and the operation count n of Approx, and Err is the expected rejection. *)
(***************************************************************************)
EXTENDS Approx, Integers, FiniteSets

Err == [err |-> TRUE]
IsErr(x) == "err" \in DOMAIN x

ValidShape(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] > 0
RECURSIVE ProdOf(_, _)
ProdOf(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdOf(s, i + 1)
Prod(s) == ProdOf(s, 1)
Strides(s) == TLCEval([i \in 1..Len(s) |-> ProdOf(s, i + 1)])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* Position (from 1) of multi-index ix in a tensor of shape s.
Offset(s, ix) == LET st == Strides(s) IN 1 + SumTo([i \in 1..Len(s) |-> ix[i] * st[i]], Len(s))
\* Multi-index of position k.
IndexOf(s, k) == LET st == Strides(s) IN TLCEval([i \in 1..Len(s) |-> ((k - 1) \div st[i]) % s[i]])
ValidIndex(s, ix) == Len(ix) = Len(s) /\ \A i \in 1..Len(s) : ix[i] >= 0 /\ ix[i] < s[i]

T(s, d) == [s |-> s, d |-> d]
\* The tensor whose element at multi-index ix is F(ix).
Gen(s, F(_)) == T(s, TLCEval([k \in 1..Prod(s) |-> F(IndexOf(s, k))]))
At(t, ix) == t.d[Offset(t.s, ix)]
\* The elements of a finite set of integers in increasing order.
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A j \in S : m <= j IN <<m>> \o SetSeq(S \ {m})
Rank(t) == Len(t.s)
Size(t) == Len(t.d)
Fill(s, v) == T(s, [k \in 1..Prod(s) |-> v])

\* Expected results.
Exact(t) == [s |-> t.s, d |-> t.d, m |-> t.d, n |-> 0]
Approxed(t, m, n) == [s |-> t.s, d |-> t.d, m |-> m, n |-> n]
Val(e) == T(e.s, e.d)
ApproxMap(t, n) == Approxed(t, TLCEval([k \in 1..Len(t.d) |-> RAbs(t.d[k])]), n)
CloseT(ty, obs, e) == /\ obs.s = e.s
                      /\ Len(obs.d) = Len(e.d)
                      /\ \A k \in 1..Len(e.d) : Close(ty, obs.d[k], e.d[k], e.m[k], e.n)

(***************************************************************************)
(* Sequences of dimensions                                                 *)
(***************************************************************************)
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))     \* drop position i (from 1)
SwapAt(s, i, j) == TLCEval([k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]])
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* Broadcasting                                                            *)
(***************************************************************************)
\* Dimension i of s when s is written with n dimensions, aligned at the right.
PadDim(s, n, i) == IF i > n - Len(s) THEN s[i - (n - Len(s))] ELSE 1
Broadcastable(s1, s2) ==
  LET n == MaxOf(Len(s1), Len(s2))
  IN \A i \in 1..n : LET a == PadDim(s1, n, i) b == PadDim(s2, n, i) IN a = b \/ a = 1 \/ b = 1
BroadcastShape(s1, s2) ==
  LET n == MaxOf(Len(s1), Len(s2))
  IN TLCEval([i \in 1..n |-> MaxOf(PadDim(s1, n, i), PadDim(s2, n, i))])
\* The index of s that multi-index ix of a broadcast shape refers to.
Project(s, ix) == LET off == Len(ix) - Len(s) IN [i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE ix[i + off]]
\* t repeated to shape s
BroadcastTo(t, s) == IF t.s = s THEN t ELSE Gen(s, LAMBDA ix : At(t, Project(t.s, ix)))

Op2(o, a, b) == CASE o = "add" -> RAdd(a, b) [] o = "sub" -> RSub(a, b) [] o = "mul" -> RMul(a, b) [] o = "div" -> RDiv(a, b)
\* magnitude of one rounded operation: the result's own
Zip(o, a, b) == [k \in 1..Len(a) |-> Op2(o, a[k], b[k])]
Bin(o, a, b) ==
  IF ~Broadcastable(a.s, b.s) THEN Err
  ELSE LET s == BroadcastShape(a.s, b.s)
           x == BroadcastTo(a, s)
           y == BroadcastTo(b, s)
       IN ApproxMap(T(s, TLCEval(Zip(o, x.d, y.d))), 1)
\* a op= b: the pure result written into a, which keeps its shape; possible when the result is no larger than a.
InPlaceBin(o, a, b) ==
  IF ~Broadcastable(a.s, b.s) THEN Err
  ELSE LET r == Bin(o, a, b) IN IF Len(r.d) = Len(a.d) THEN [r EXCEPT !.s = a.s] ELSE Err

Map(t, F(_)) == T(t.s, TLCEval([k \in 1..Len(t.d) |-> F(t.d[k])]))
Scalar(o, a, v) == IF o = "div" /\ v = Zero THEN Err ELSE ApproxMap(Map(a, LAMBDA x : Op2(o, x, v)), 1)
LeftScalar(o, v, a) == ApproxMap(Map(a, LAMBDA x : Op2(o, v, x)), 1)
Neg(a) == Exact(Map(a, LAMBDA x : RNeg(x)))
Sqrt(a) == ApproxMap(Map(a, LAMBDA x : RSqrt(x)), 1)
\* the functions a script can name
Fn(f, x) == CASE f = "twice" -> RAdd(x, x) [] f = "sq" -> RMul(x, x) [] f = "inc" -> RAdd(x, One) [] f = "neg" -> RNeg(x)
Apply(f, a) == ApproxMap(Map(a, LAMBDA x : Fn(f, x)), 1)
\* pairwise application of (x, y) |-> 2 x + y
Pair(a, b) == IF a.s # b.s THEN Err
              ELSE Approxed(T(a.s, [k \in 1..Len(a.d) |-> RAdd(RAdd(a.d[k], a.d[k]), b.d[k])]),
                            [k \in 1..Len(a.d) |-> RAdd(RAbs(RAdd(a.d[k], a.d[k])), RAbs(b.d[k]))], 2)
Recip(a, eps) == ApproxMap(Map(a, LAMBDA x : IF RLt(eps, RAbs(x)) THEN RDiv(One, x) ELSE RDiv(One, eps)), 1)

(***************************************************************************)
(* Reductions.  axes is a set of axes (from 0).                            *)
(***************************************************************************)
ValidAxes(t, axes) == \A a \in axes : a >= 0 /\ a < Rank(t)
AllAxes(t) == 0..(Rank(t) - 1)
KeepShape(t, axes) == TLCEval([i \in 1..Rank(t) |-> IF (i - 1) \in axes THEN 1 ELSE t.s[i]])
RECURSIVE DropFrom(_, _, _)
DropFrom(s, axes, i) == IF i > Len(s) THEN <<>>
                        ELSE (IF (i - 1) \in axes THEN <<>> ELSE <<s[i]>>) \o DropFrom(s, axes, i + 1)
DropShape(t, axes) == LET s == DropFrom(t.s, axes, 1) IN IF s = <<>> THEN <<1>> ELSE s
\* The elements of t that reduce to output index ix (of KeepShape).
Fibre(t, axes, ix) ==
  LET red == TLCEval([i \in 1..Rank(t) |-> IF (i - 1) \in axes THEN t.s[i] ELSE 1])
  IN TLCEval([j \in 1..Prod(red) |-> LET rx == IndexOf(red, j) IN At(t, [i \in 1..Rank(t) |-> ix[i] + rx[i]])])
Count(t, axes) == Size(t) \div Prod(KeepShape(t, axes))
\* For every output position the pair <<sum, sum of absolute values>>.
SumMag(t, axes) == LET ks == KeepShape(t, axes)
                   IN TLCEval([k \in 1..Prod(ks) |-> LET f == Fibre(t, axes, IndexOf(ks, k)) IN <<RSum(f), RSumAbs(f)>>])
SumAxes(t, axes) ==
  IF ~ValidAxes(t, axes) THEN Err
  ELSE LET sm == SumMag(t, axes)
       IN Approxed(T(DropShape(t, axes), [k \in 1..Len(sm) |-> sm[k][1]]), [k \in 1..Len(sm) |-> sm[k][2]], Count(t, axes))
SumAll(t) == SumAxes(t, AllAxes(t))
\* No axes and all axes both mean every element, with result shape (1).
MeanShape(t, axes) == IF axes = {} \/ axes = AllAxes(t) THEN <<1>> ELSE KeepShape(t, axes)
MeanAxes(t, axes) ==
  IF ~ValidAxes(t, axes) THEN Err
  ELSE LET ax == IF axes = {} THEN AllAxes(t) ELSE axes
           sm == SumMag(t, ax)
           c == RInt(Count(t, ax))
       IN Approxed(T(MeanShape(t, axes), [k \in 1..Len(sm) |-> RDiv(sm[k][1], c)]),
                   [k \in 1..Len(sm) |-> RDiv(sm[k][2], c)], Count(t, ax) + 2)
\* Mean squared distance from the given mean (of the shape MeanAxes gives).
VarAxes(t, mu, axes) ==
  IF ~ValidAxes(t, axes) THEN Err
  ELSE LET ks == KeepShape(t, axes)
           c == RInt(Count(t, axes))
           dev(k) == LET f == Fibre(t, axes, IndexOf(ks, k)) IN TLCEval([j \in 1..Len(f) |-> RSub(f[j], mu.d[k])])
           v == TLCEval([k \in 1..Prod(ks) |-> LET dv == dev(k) IN RDiv(RDot(dv, dv), c)])
       IN Approxed(T(mu.s, v), v, Count(t, axes) + 4)

(***************************************************************************)
(* Products                                                                *)
(***************************************************************************)
\* Sums of products: F(ix) and G(ix) give the sequences of factors of output index ix.
DotGen(s, F(_), G(_), n) ==
  LET e == TLCEval([k \in 1..Prod(s) |-> LET ix == IndexOf(s, k) f == TLCEval(F(ix)) g == TLCEval(G(ix)) IN <<RDot(f, g), RDotAbs(f, g)>>])
  IN Approxed(T(s, [k \in 1..Len(e) |-> e[k][1]]), [k \in 1..Len(e) |-> e[k][2]], n)
Row(t, pre, K) == [p \in 1..K |-> At(t, pre \o <<p - 1>>)]            \* t[pre, 0..K-1]
Col(t, pre, K, j) == [p \in 1..K |-> At(t, pre \o <<p - 1, j>>)]      \* t[pre, 0..K-1, j]
Front(s, n) == SubSeq(s, 1, n)
MatMul(a, b) ==
  LET ra == Rank(a) rb == Rank(b) IN
  CASE ra = 1 /\ rb = 1 -> IF a.s # b.s THEN Err ELSE DotGen(<<1>>, LAMBDA ix : a.d, LAMBDA ix : b.d, a.s[1])
    [] ra = 2 /\ rb = 2 -> IF a.s[2] # b.s[1] THEN Err
         ELSE DotGen(<<a.s[1], b.s[2]>>, LAMBDA ix : Row(a, <<ix[1]>>, a.s[2]), LAMBDA ix : Col(b, <<>>, a.s[2], ix[2]), a.s[2])
    [] ra = 1 /\ rb = 2 -> IF a.s[1] # b.s[1] THEN Err
         ELSE DotGen(<<b.s[2]>>, LAMBDA ix : a.d, LAMBDA ix : Col(b, <<>>, a.s[1], ix[1]), a.s[1])
    [] ra = 2 /\ rb = 1 -> IF a.s[2] # b.s[1] THEN Err
         ELSE DotGen(<<a.s[1]>>, LAMBDA ix : Row(a, <<ix[1]>>, a.s[2]), LAMBDA ix : b.d, a.s[2])
    [] ra = 3 /\ rb = 2 -> IF a.s[3] # b.s[1] THEN Err
         ELSE DotGen(<<a.s[1], a.s[2], b.s[2]>>, LAMBDA ix : Row(a, <<ix[1], ix[2]>>, a.s[3]), LAMBDA ix : Col(b, <<>>, a.s[3], ix[3]), a.s[3])
    [] ra = 2 /\ rb = 3 -> IF a.s[2] # b.s[2] THEN Err
         ELSE DotGen(<<b.s[1], a.s[1], b.s[3]>>, LAMBDA ix : Row(a, <<ix[2]>>, a.s[2]), LAMBDA ix : Col(b, <<ix[1]>>, a.s[2], ix[3]), a.s[2])
    [] ra = rb /\ ra >= 3 -> IF a.s[ra] # b.s[ra - 1] \/ Front(a.s, ra - 2) # Front(b.s, ra - 2) THEN Err
         ELSE DotGen(Front(a.s, ra - 1) \o <<b.s[rb]>>,
                     LAMBDA ix : Row(a, Front(ix, ra - 1), a.s[ra]),
                     LAMBDA ix : Col(b, Front(ix, ra - 2), a.s[ra], ix[ra]), a.s[ra])
    [] OTHER -> Err

(***************************************************************************)
(* Rearrangements                                                          *)
(***************************************************************************)
Transpose(t, i, j) ==
  IF i < 0 \/ j < 0 \/ i >= Rank(t) \/ j >= Rank(t) THEN Err
  ELSE Exact(Gen(SwapAt(t.s, i + 1, j + 1), LAMBDA ix : At(t, SwapAt(ix, i + 1, j + 1))))
Reshape(t, s) == IF ~ValidShape(s) \/ Prod(s) # Size(t) THEN Err ELSE Exact(T(s, t.d))
\* The sub-tensor at index i of axis a (ranks above 1).
Slice(t, a, i) ==
  IF a < 0 \/ a >= Rank(t) \/ Rank(t) < 2 THEN Err
  ELSE IF i < 0 \/ i >= t.s[a + 1] THEN Err
  ELSE Exact(Gen(Remove(t.s, a + 1), LAMBDA ix : At(t, SubSeq(ix, 1, a) \o <<i>> \o SubSeq(ix, a + 1, Len(ix)))))
\* Strided view.  Bounds below zero count from the end; an end beyond the axis stops at it.
ViewStart(t, st, i) == IF st[i] < 0 THEN st[i] + t.s[i] ELSE st[i]
ViewEnd(t, en, i) == MinOf(IF en[i] < 0 THEN en[i] + t.s[i] ELSE en[i], t.s[i])
ViewShape(t, st, en, step) ==
  [i \in 1..Rank(t) |-> LET len == ViewEnd(t, en, i) - ViewStart(t, st, i) IN IF len <= 0 THEN 0 ELSE (len + step[i] - 1) \div step[i]]
ViewIndex(t, st, step, ix) == [i \in 1..Rank(t) |-> ViewStart(t, st, i) + ix[i] * step[i]]
View(t, st, en, step) ==
  IF Len(st) # Rank(t) \/ Len(en) # Rank(t) \/ Len(step) # Rank(t) THEN Err
  ELSE LET vs == TLCEval(ViewShape(t, st, en, step))
       IN IF ~ValidShape(vs) THEN Err ELSE Exact(Gen(vs, LAMBDA ix : At(t, ViewIndex(t, st, step, ix))))
\* t read through the index rule of broadcasting to shape s
BroadcastView(t, s) == IF ~Broadcastable(t.s, s) \/ BroadcastShape(t.s, s) # s THEN Err ELSE Exact(BroadcastTo(t, s))
=============================================================================

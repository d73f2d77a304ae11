------------------------------ MODULE MC_Algebra ------------------------------
(***************************************************************************)
(* Laws that pin down the tensor algebra of module Tensor independently of *)
(* its definitions, checked for every shape (pair of shapes) of rank up to *)
(* MaxRank and dimensions up to Small.                                     *)
(***************************************************************************)
EXTENDS Tensor
CONSTANTS MaxRank, Small, PairRank
VARIABLES s, q   \* two shapes

Shapes(n) == UNION {[1..k -> 1..Small] : k \in 1..n}
Init == \/ s \in Shapes(MaxRank) /\ q = <<1>>
        \/ s \in Shapes(PairRank) /\ q \in Shapes(PairRank)
Next == FALSE /\ UNCHANGED <<s, q>>

\* A tensor of shape s with different numbers (powers of three: different subsets have different sums).
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN One ELSE RMul(RInt(3), Pow3(n - 1))
A == T(s, TLCEval([k \in 1..Prod(s) |-> Pow3(k)]))
B == T(q, TLCEval([k \in 1..Prod(q) |-> RInt(5 + k * k)]))
Single == q = <<1>>

\* Row-major addressing is a bijection and increases with the multi-index.
OffsetBijection == Single => /\ \A k \in 1..Prod(s) : ValidIndex(s, IndexOf(s, k)) /\ Offset(s, IndexOf(s, k)) = k
                             /\ Offset(s, [i \in 1..Len(s) |-> s[i] - 1]) = Prod(s)
ReshapeKeeps == Single => /\ Reshape(A, <<Prod(s)>>).d = A.d /\ Reshape(Val(Reshape(A, <<Prod(s)>>)), s) = Exact(A)
                          /\ IsErr(Reshape(A, <<Prod(s) + 1>>))
\* The broadcast rule is symmetric, idempotent, has (1) as its unit, and agrees with the yes/no question.
BroadcastRule == /\ Broadcastable(s, q) = Broadcastable(q, s)
                 /\ Broadcastable(s, q) => /\ BroadcastShape(s, q) = BroadcastShape(q, s)
                                           /\ Broadcastable(s, BroadcastShape(s, q))
                                           /\ BroadcastShape(s, BroadcastShape(s, q)) = BroadcastShape(s, q)
                 /\ BroadcastShape(s, <<1>>) = s
Elementwise ==
  IF ~Broadcastable(s, q) THEN \A o \in {"add", "sub", "mul", "div"} : IsErr(Bin(o, A, B))
  ELSE /\ Bin("add", A, B) = Bin("add", B, A) /\ Bin("mul", A, B) = Bin("mul", B, A)
       /\ Bin("sub", A, B).d = Neg(Val(Bin("sub", B, A))).d
       /\ Val(Bin("mul", Val(Bin("div", A, B)), B)).s = BroadcastShape(s, q)
       \* adding the broadcast of B is adding B
       /\ Val(Bin("add", A, BroadcastTo(B, BroadcastShape(s, q)))) = Val(Bin("add", A, B))
       /\ Val(BroadcastView(B, BroadcastShape(s, q))) = BroadcastTo(B, BroadcastShape(s, q))
\* Summing in two stages is summing at once; every element counts once; all axes give shape (1).
Reductions == Single =>
  /\ SumAll(A).d = <<RSum(A.d)>> /\ SumAll(A).s = <<1>>
  /\ \A ax \in SUBSET AllAxes(A) :
       /\ RSum(SumAxes(A, ax).d) = RSum(A.d)
       /\ Prod(SumAxes(A, ax).s) = Prod(KeepShape(A, ax))
       /\ ax # {} => LET m == MeanAxes(A, ax)
                         c == RInt(Count(A, ax))
                     IN /\ Len(m.d) = Prod(KeepShape(A, ax))
                        /\ \A k \in 1..Len(m.d) : RLt(RAbs(RSub(RMul(m.d[k], c), SumAxes(A, ax).d[k])), RMul(RAbs(SumAxes(A, ax).d[k]), RLit("1e-30")))
       /\ \A b \in AllAxes(A) \ ax : \* drop ax first, then what b has become
            LET b2 == b - Cardinality({x \in ax : x < b}) IN
            SumAxes(Val(SumAxes(A, ax)), {b2}).d = SumAxes(A, ax \cup {b}).d
  /\ IsErr(SumAxes(A, {Rank(A)})) /\ IsErr(MeanAxes(A, {0, Rank(A)}))
\* E[x^2] - E[x]^2
Variance == Single => \A ax \in (SUBSET AllAxes(A)) \ {{}} :
  LET v == VarAxes(A, Val(MeanAxes(A, ax)), ax)
      m == MeanAxes(A, ax)
      m2 == MeanAxes(Map(A, LAMBDA x : RMul(x, x)), ax)
  IN \A k \in 1..Len(v.d) : RLe(RAbs(RSub(v.d[k], RSub(m2.d[k], RMul(m.d[k], m.d[k])))), RMul(m2.d[k], RLit("1e-25")))
Transposes == Single => \A i \in AllAxes(A), j \in AllAxes(A) :
  LET t == Transpose(A, i, j) IN
  /\ Val(Transpose(Val(t), i, j)) = A /\ t = Transpose(A, j, i)
  /\ i = j => Val(t) = A
  /\ \A k \in 1..Size(A) : LET ix == IndexOf(s, k) IN At(Val(t), SwapAt(ix, i + 1, j + 1)) = A.d[k]
\* The slices along an axis put together again are the tensor.
Slices == Single /\ Rank(A) > 1 => \A a \in AllAxes(A) :
  LET sl == [i \in 1..s[a + 1] |-> Val(Slice(A, a, i - 1))]
  IN Gen(s, LAMBDA ix : At(sl[ix[a + 1] + 1], Remove(ix, a + 1))) = A
\* A view of everything is the tensor; a view with step 1 of a view composes.
Views == Single => LET z == [i \in 1..Rank(A) |-> 0]
                       one == [i \in 1..Rank(A) |-> 1]
                       two == [i \in 1..Rank(A) |-> 2]
                   IN /\ Val(View(A, z, s, one)) = A
                      /\ LET e == View(A, z, s, two) IN \A k \in 1..Len(e.d) : e.d[k] = At(A, [i \in 1..Rank(A) |-> 2 * IndexOf(e.s, k)[i]])
                      /\ \A i \in 1..Rank(A) : s[i] > 1 =>
                           Val(View(A, [z EXCEPT ![i] = 1], s, one)) = Val(View(A, [z EXCEPT ![i] = 1 - s[i]], s, one))
\* (A B)^T = B^T A^T, matrix times vector as matrix times column, batches item by item.
Products ==
  /\ Rank(A) = 2 /\ Rank(B) = 2 /\ s[2] = q[1] =>
       /\ Transpose(Val(MatMul(A, B)), 0, 1).d = MatMul(Val(Transpose(B, 0, 1)), Val(Transpose(A, 0, 1))).d
       /\ LET I == Gen(<<q[2], q[2]>>, LAMBDA ix : IF ix[1] = ix[2] THEN One ELSE Zero) IN MatMul(B, I).d = B.d
       /\ \A r \in 0..(s[1] - 1) : MatMul(Val(Slice(A, 0, r)), B).d = Slice(Val(MatMul(A, B)), 0, r).d
  /\ Rank(A) = 3 /\ Rank(B) = 3 /\ s[1] = q[1] /\ s[3] = q[2] =>
       \A r \in 0..(s[1] - 1) : Slice(Val(MatMul(A, B)), 0, r).d = MatMul(Val(Slice(A, 0, r)), Val(Slice(B, 0, r))).d
  /\ Rank(A) = 3 /\ Rank(B) = 2 /\ s[3] = q[1] =>
       \A r \in 0..(s[1] - 1) : Slice(Val(MatMul(A, B)), 0, r).d = MatMul(Val(Slice(A, 0, r)), B).d
  /\ Rank(A) = 2 /\ Rank(B) = 3 /\ s[2] = q[2] =>
       \A r \in 0..(q[1] - 1) : Slice(Val(MatMul(A, B)), 0, r).d = MatMul(A, Val(Slice(B, 0, r))).d
=============================================================================

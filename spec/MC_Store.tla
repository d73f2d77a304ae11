------------------------------- MODULE MC_Store -------------------------------
(***************************************************************************)
(* TensorStore on its own: every program of at most Depth calls over small *)
(* tensors, with exact arithmetic.  Kind selects the calls.  The same      *)
(* programs are written out (one JSON list per line) and executed by the   *)
(* real library; TraceStore judges what it replies.                        *)
(***************************************************************************)
EXTENDS TensorStore, Json, SequencesExt
CONSTANTS Kind, Depth, Small   \* Small: the largest dimension
VARIABLE hist                  \* the calls so far (without replies)

Dim == 1..Small
Shapes(n) == UNION {[1..k -> Dim] : k \in 1..n}
Txt(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN "" ELSE F[i - 1] \o (IF i > 1 THEN " " ELSE "") \o q[i] IN F[Len(q)]
\* n different numbers starting after b
Nums(n, b) == Txt([i \in 1..n |-> ToString(b + i)])
Mk(d, s, b) == [op |-> "newl", d |-> d, s |-> s, l |-> Nums(Prod(s), b)]
Made(e) == T(e.s, RVec(e.l))

\* The stores programs start from.
Start ==
  CASE Kind = "alias" -> {<<Mk(1, <<2>>, 0), Mk(2, <<1, 2>>, 4)>>}
    [] Kind = "arith" -> {<<Mk(1, s, 0), Mk(2, t, 1)>> : s \in Shapes(3), t \in Shapes(3)}
    [] Kind = "product" -> {<<Mk(1, s, 0), Mk(2, t, 3)>> : s \in Shapes(3), t \in Shapes(3)}
                           \cup {<<Mk(1, s, 0), Mk(2, t, 3)>> : s \in [1..4 -> 1..2], t \in [1..4 -> 1..2]}
    [] Kind = "reduce" -> {<<Mk(1, s, 0)>> : s \in Shapes(4)}
    [] Kind = "index" -> {<<Mk(1, s, 0)>> : s \in Shapes(3)}
    [] Kind = "rearr" -> {<<Mk(1, s, 0)>> : s \in Shapes(3)}
    [] Kind = "view" -> {<<Mk(1, s, 0)>> : s \in Shapes(2)}
MCInit == /\ ty = "x"
          /\ hist \in Start
          /\ ts = [i \in {hist[k].d : k \in 1..Len(hist)} |-> Made(hist[CHOOSE k \in 1..Len(hist) : hist[k].d = i])]

Ids == DOMAIN ts
Out == 3   \* slot for new tensors
Slots == Ids \cup {Out}
Ops == {"add", "sub", "mul", "div"}
Calls ==
  CASE Kind = "alias" ->
         {[op |-> "copy", d |-> d, p |-> p] : d \in Slots, p \in Ids}
         \cup {[op |-> o, d |-> d, p |-> p] : o \in {"asg", "masg"}, d \in Ids, p \in Ids}
         \cup {[op |-> "move", d |-> pr[1], p |-> pr[2]] : pr \in {x \in Slots \X Ids : x[1] # x[2]}}
         \cup {[op |-> "reshape", d |-> p, s |-> <<2, 1>>] : p \in Ids}
         \cup {[op |-> "setf", d |-> p, i |-> 0, v |-> "7"] : p \in Ids}
         \cup {[op |-> "iapply", d |-> p, f |-> "twice"] : p \in Ids}
         \cup {[op |-> "isc", o |-> "mul", d |-> p, v |-> "3"] : p \in Ids}
         \cup {[op |-> "slice", d |-> Out, p |-> p, i |-> 0, j |-> 0] : p \in {q \in Ids : Rank(ts[q]) > 1}}
         \cup {[op |-> "transpose", d |-> Out, p |-> p, i |-> 0, j |-> 1] : p \in Ids}
         \cup {[op |-> "ibin", o |-> "sub", d |-> p, q |-> q] : p \in Ids, q \in Ids}
         \cup {[op |-> "bin", o |-> "add", d |-> Out, p |-> p, q |-> q] : p \in Ids, q \in Ids}
         \cup {[op |-> "eq", p |-> p, q |-> q] : p \in Ids, q \in Ids}
    [] Kind = "arith" -> {[op |-> "bin", o |-> o, d |-> Out, p |-> 1, q |-> 2] : o \in Ops}
                         \cup {[op |-> "ibin", o |-> o, d |-> 1, q |-> 2] : o \in Ops}
    [] Kind = "product" -> {[op |-> "matmul", d |-> Out, p |-> 1, q |-> 2]}
    [] Kind = "reduce" -> {[op |-> o, d |-> Out, p |-> 1, ax |-> SetToSeq(ax)] : o \in {"sumaxes", "meanaxes"}, ax \in SUBSET (0..Rank(ts[1]))}
                          \cup {[op |-> "sumax", d |-> Out, p |-> 1, i |-> a] : a \in 0..Rank(ts[1])}
                          \cup {[op |-> o, d |-> Out, p |-> 1] : o \in {"sum", "mean"}}
    [] Kind = "index" ->
         LET bad == {<<0>>, <<1, 0>>, <<-1, -1>>, <<>>}
             ixs == UNION {[1..n -> -1..Small] : n \in 1..(Rank(ts[1]) + 1)}
         IN {[op |-> "reshape", d |-> 1, s |-> s] : s \in Shapes(3) \cup bad}
            \cup {[op |-> "new", d |-> Out, s |-> s] : s \in Shapes(3) \cup bad}
            \cup {[op |-> "get", d |-> 1, ix |-> ix] : ix \in ixs}
            \cup {[op |-> "set", d |-> 1, ix |-> ix, v |-> "99"] : ix \in ixs}
    [] Kind = "rearr" ->
         {[op |-> "slice", d |-> Out, p |-> 1, i |-> i, j |-> j] : i \in IF Rank(ts[1]) > 1 THEN -1..(Rank(ts[1]) + 1) ELSE {}, j \in -1..(Small + 1)}
         \cup {[op |-> "transpose", d |-> Out, p |-> 1, i |-> i, j |-> j] : i \in 0..(Rank(ts[1]) + 1), j \in 0..(Rank(ts[1]) + 1)}
    [] Kind = "view" ->
         LET n == Rank(ts[1])
             Bounds == {b \in [1..n -> (-Small..(Small - 1)) \X (-Small..(Small + 1))] :
                          \A i \in 1..n : b[i][1] >= -ts[1].s[i] /\ b[i][1] < ts[1].s[i] /\ b[i][2] >= -ts[1].s[i]}
         IN {[op |-> "view", d |-> 1, st |-> [i \in 1..n |-> b[i][1]], en |-> [i \in 1..n |-> b[i][2]], sp |-> sp] : b \in Bounds, sp \in [1..n -> 1..2]}

\* The reply of an implementation that computes exactly.
Shown(t) == [s |-> t.s, d |-> t.d, n |-> Len(t.d)]
Ok == [ok |-> TRUE]
Replies(e) ==
  IF e.op \in NewOps \cup MutOps \cup ViewOps
    THEN LET x == Yield(e) IN IF IsErr(x) THEN {[ok |-> FALSE]} ELSE {Ok @@ [y |-> Shown(x)]}
  ELSE IF e.op \in {"move", "masg"}
    THEN {Ok @@ [y |-> Shown(ts[e.p])] @@ [src |-> Shown(t)] : t \in {ts[e.p], T(<<1>>, <<Zero>>)}}
  ELSE IF e.op = "eq" THEN {Ok @@ [b |-> ts[e.p] = ts[e.q]] @@ [nb |-> ts[e.p] # ts[e.q]]}
  ELSE IF e.op = "get" THEN {IF ValidIndex(ts[e.d].s, e.ix) THEN Ok @@ [v |-> At(ts[e.d], e.ix)] ELSE [ok |-> FALSE]}
  ELSE {}
MCNext == /\ Len(hist) < Depth
          /\ \E e \in Calls : \E r \in Replies(e) : StoreStep(e @@ [r |-> r]) /\ hist' = Append(hist, e)
MCVars == <<ts, ty, hist>>
StoreView == <<ts, Len(hist)>>

\* Invariants
TypeOK == \A i \in DOMAIN ts : ValidShape(ts[i].s) /\ Len(ts[i].d) = Prod(ts[i].s)
\* Every call gets an answer.
Total == Len(hist) < Depth => \A e \in Calls : \E r \in Replies(e) : ENABLED StoreStep(e @@ [r |-> r])
\* A call changes the tensor it is applied to (and the source of a move), nothing else.
Touched(e) == IF e.op \in {"move", "masg"} THEN {e.d, e.p} ELSE IF "d" \in DOMAIN e THEN {e.d} ELSE {}
Isolation == [][\A i \in DOMAIN ts \ Touched(hist'[Len(hist')]) : i \in DOMAIN ts' /\ ts'[i] = ts[i]]_MCVars
\* A rejected call changes nothing at all; a pure one only its result.
Rejected == [][LET e == hist'[Len(hist')] IN (e.op \in NewOps \cup MutOps /\ Callable(e) /\ IsErr(Yield(e))) => ts' = ts]_MCVars
\* In-place forms leave what the pure forms return.
InPlace == Kind = "arith" => \A o \in Ops : LET x == InPlaceBin(o, ts[1], ts[2]) IN IsErr(x) \/ (x.d = Bin(o, ts[1], ts[2]).d /\ x.s = ts[1].s)

\* Programs of full length, for the replay.
Emit == Len(hist) >= Depth => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

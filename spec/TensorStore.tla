----------------------------- MODULE TensorStore -----------------------------
(***************************************************************************)
(* The tensors a program holds, and the calls it can make on them.         *)
(*                                                                         *)
(* A call is an event e: the operation e.op, its arguments, and the reply  *)
(* e.r that the caller sees.  When the specification is checked on its own *)
(* (MC_...) the reply is the one the specification computes; when a trace  *)
(* of the implementation is checked (Trace...) it is the one recorded.     *)
(* An action is enabled only if the reply is allowed, and the store takes  *)
(* the observed contents, so rounding does not add up along a history.     *)
(* Numbers in events are strings (or, in exact mode, reals).               *)
(***************************************************************************)
EXTENDS Tensor

VARIABLES ts,  \* tensor id -> tensor
          ty   \* element type of this program: "f", "d" or "x"
storeVars == <<ts, ty>>

StoreInit == ts = <<>> /\ ty = "x"

\* Numbers and tensors as they appear in events.
Num(v) == RLit(v)
Parse(y) == IF ty = "x" THEN T(y.s, y.d) ELSE T(y.s, RVec(y.d))
WellFormed(y, t) == ValidShape(t.s) /\ Len(t.d) = Prod(t.s) /\ y.n = Len(t.d)

Range1(q) == {q[i] : i \in 1..Len(q)}
List(l) == RVec(l)

(***************************************************************************)
(* Operations that yield a tensor: the value they must yield, or Err.      *)
(***************************************************************************)
FromList(s, l) == IF ~ValidShape(s) \/ Len(l) # Prod(s) THEN Err ELSE Exact(T(s, l))
Filled(s, v) == IF ~ValidShape(s) THEN Err ELSE Exact(Fill(s, v))
Identity(n) == IF n < 1 THEN Err ELSE Exact(Gen(<<n, n>>, LAMBDA ix : IF ix[1] = ix[2] THEN One ELSE Zero))
SetAt(t, k, v) == Exact(T(t.s, [t.d EXCEPT ![k] = v]))

\* into slot e.d
NewOps == {"new", "newv", "newp", "newl", "newm", "newi", "newtd", "newtdm", "ones", "zeros", "ones1", "zeros1", "ident",
           "copy", "copytd", "areshape", "bin", "sc", "sce", "lsc", "neg", "sqrt", "apply", "pair", "recip", "recipd", "sum", "sumax",
           "sumaxes", "mean", "meanaxes", "var", "varaxes", "matmul", "transpose", "slice"}
\* changing slot e.d, which must exist
MutOps == {"asg", "reshape", "reshapev", "ibin", "isc", "isce", "isqrt", "iapply", "viewset", "set", "setf", "fill", "fille"}
\* yielding a value only
ViewOps == {"iter", "view", "bview", "obs"}

Yield(e) ==
  CASE e.op = "new" -> Filled(e.s, Zero)
    [] e.op \in {"newv", "newtd", "newtdm"} -> Filled(e.s, Num(e.v))
    [] e.op \in {"newp", "newl", "newm", "newi"} -> FromList(e.s, List(e.l))
    [] e.op = "ones" -> Filled(e.s, One)
    [] e.op = "zeros" -> Filled(e.s, Zero)
    [] e.op = "ones1" -> Filled(<<e.i>>, One)
    [] e.op = "zeros1" -> Filled(<<e.i>>, Zero)
    [] e.op = "ident" -> Identity(e.i)
    [] e.op \in {"copy", "copytd", "asg"} -> Exact(ts[e.p])
    [] e.op = "areshape" -> Reshape(ts[e.p], e.s)
    [] e.op = "bin" -> Bin(e.o, ts[e.p], ts[e.q])
    [] e.op = "sc" -> Scalar(e.o, ts[e.p], Num(e.v))
    [] e.op = "sce" -> Scalar(e.o, ts[e.p], ts[e.p].d[e.i + 1])  \* an element of the tensor itself, as it was before the call
    [] e.op = "isce" -> Scalar(e.o, ts[e.d], ts[e.d].d[e.i + 1])
    [] e.op = "fille" -> Filled(ts[e.d].s, ts[e.d].d[e.i + 1])
    [] e.op = "lsc" -> LeftScalar(e.o, Num(e.v), ts[e.p])
    [] e.op = "neg" -> Neg(ts[e.p])
    [] e.op = "sqrt" -> Sqrt(ts[e.p])
    [] e.op = "apply" -> Apply(e.f, ts[e.p])
    [] e.op = "pair" -> Pair(ts[e.p], ts[e.q])
    [] e.op = "recip" -> Recip(ts[e.p], Num(e.v))
    [] e.op = "recipd" -> Recip(ts[e.p], RLit("1e-12"))
    [] e.op = "sum" -> SumAll(ts[e.p])
    [] e.op = "sumax" -> SumAxes(ts[e.p], {e.i})
    [] e.op = "sumaxes" -> SumAxes(ts[e.p], Range1(e.ax))
    [] e.op = "mean" -> MeanAxes(ts[e.p], {})
    [] e.op = "meanaxes" -> MeanAxes(ts[e.p], Range1(e.ax))
    [] e.op = "var" -> VarAxes(ts[e.p], ts[e.q], AllAxes(ts[e.p]))
    [] e.op = "varaxes" -> VarAxes(ts[e.p], ts[e.q], Range1(e.ax))
    [] e.op = "matmul" -> MatMul(ts[e.p], ts[e.q])
    [] e.op = "transpose" -> Transpose(ts[e.p], e.i, e.j)
    [] e.op = "slice" -> Slice(ts[e.p], e.i, e.j)
    [] e.op \in {"reshape", "reshapev"} -> Reshape(ts[e.d], e.s)
    [] e.op = "ibin" -> InPlaceBin(e.o, ts[e.d], ts[e.q])
    [] e.op = "isc" -> Scalar(e.o, ts[e.d], Num(e.v))
    [] e.op = "isqrt" -> Sqrt(ts[e.d])
    [] e.op = "iapply" -> Apply(e.f, ts[e.d])
    [] e.op = "set" -> IF ValidIndex(ts[e.d].s, e.ix) THEN SetAt(ts[e.d], Offset(ts[e.d].s, e.ix), Num(e.v)) ELSE Err
    [] e.op = "setf" -> SetAt(ts[e.d], e.i + 1, Num(e.v))
    [] e.op = "fill" -> Filled(ts[e.d].s, Num(e.v))
    [] e.op = "viewset" -> LET vw == View(ts[e.d], e.st, e.en, e.sp)
                           IN IF IsErr(vw) THEN Err
                              ELSE SetAt(ts[e.d], Offset(ts[e.d].s, ViewIndex(ts[e.d], e.st, e.sp, e.ix)), Num(e.v))
    [] e.op = "iter" -> Exact(T(<<Size(ts[e.d])>>, ts[e.d].d))
    [] e.op = "view" -> View(ts[e.d], e.st, e.en, e.sp)
    [] e.op = "bview" -> BroadcastView(ts[e.d], e.s)
    [] e.op = "obs" -> Exact(ts[e.d])

\* Operands that must exist for the call to be made at all.
Has(e, fld) == fld \in DOMAIN e
Callable(e) == /\ Has(e, "p") => e.p \in DOMAIN ts
               /\ Has(e, "q") => e.q \in DOMAIN ts
               /\ (e.op \in MutOps \cup ViewOps) => e.d \in DOMAIN ts

\* The reply shows the tensor that is expected.
Shows(y, x) == LET t == Parse(y) IN WellFormed(y, t) /\ CloseT(ty, t, x)
\* What else some replies show.
Extra(e, x) ==
  /\ Has(e.r, "st") => e.r.st = Strides(x.s) /\ e.r.rank = Len(x.s)
  /\ Has(e.r, "ix") => List(e.r.ix) = x.d

\* (op, d): the slot the event writes, if any
Yields(e) ==
  /\ Callable(e)
  /\ LET x == Yield(e)
     IN IF IsErr(x) THEN ~e.r.ok /\ UNCHANGED ts
        ELSE /\ e.r.ok
             /\ Holds(Shows(e.r.y, x))
             /\ Holds(Extra(e, x))
             /\ IF e.op \in ViewOps THEN UNCHANGED ts
                ELSE ts' = (e.d :> Parse(e.r.y)) @@ ts
  /\ UNCHANGED ty

\* Construction or assignment by moving: the target is the source's old value; the source stays some valid tensor.
Move(e) ==
  /\ e.p \in DOMAIN ts
  /\ e.r.ok
  /\ Holds(Shows(e.r.y, Exact(ts[e.p])))
  /\ IF e.op = "masg" /\ e.d = e.p THEN UNCHANGED ts
     ELSE LET src == Parse(e.r.src)
          IN Holds(WellFormed(e.r.src, src)) /\ ts' = (e.d :> ts[e.p]) @@ (e.p :> src) @@ ts
  /\ UNCHANGED ty

Drop(e) == e.d \in DOMAIN ts /\ e.r.ok /\ ts' = [i \in DOMAIN ts \ {e.d} |-> ts[i]] /\ UNCHANGED ty

\* Equality compares shape and elements.
Compare(e) == /\ Callable(e) /\ e.r.ok
              /\ e.r.b = (ts[e.p] = ts[e.q])
              /\ e.r.nb = ~e.r.b
              /\ UNCHANGED storeVars

Get(e) == /\ e.d \in DOMAIN ts
          /\ IF ValidIndex(ts[e.d].s, e.ix) THEN e.r.ok /\ RLit(e.r.v) = At(ts[e.d], e.ix) ELSE ~e.r.ok
          /\ UNCHANGED storeVars
GetFlat(e) == e.d \in DOMAIN ts /\ e.r.ok /\ RLit(e.r.v) = ts[e.d].d[e.i + 1] /\ UNCHANGED storeVars

\* All live tensors, as the program sees them.
Snapshot(e) == /\ e.r.ok
               /\ {e.r.all[k].i : k \in 1..Len(e.r.all)} = DOMAIN ts
               /\ Holds(\A k \in 1..Len(e.r.all) : Shows(e.r.all[k].t, Exact(ts[e.r.all[k].i])))
               /\ UNCHANGED storeVars

ShapeQuery(e) ==
  /\ IF ~ValidShape(e.s) \/ ~ValidShape(e.s2) THEN ~e.r.ok
     ELSE /\ e.r.ok
          /\ e.r.b = Broadcastable(e.s, e.s2)
          /\ e.r.bs = (IF Broadcastable(e.s, e.s2) THEN BroadcastShape(e.s, e.s2) ELSE <<>>)
          /\ e.r.cat = e.s \o e.s2
          /\ e.r.same = (e.s = e.s2)
  /\ UNCHANGED storeVars
FlatQuery(e) ==
  /\ IF ValidShape(e.s) /\ ValidIndex(e.s, e.ix) THEN e.r.ok /\ e.r.off = Offset(e.s, e.ix) - 1 ELSE ~e.r.ok
  /\ UNCHANGED storeVars

(***************************************************************************)
(* Text                                                                    *)
(***************************************************************************)
\* q[i] to q[j] with sep between them
RECURSIVE JoinIn(_, _, _, _)
JoinIn(q, sep, i, j) == IF i > j THEN ""
                        ELSE IF i = j THEN q[i]
                        ELSE LET m == (i + j) \div 2 IN JoinIn(q, sep, i, m) \o sep \o JoinIn(q, sep, m + 1, j)
Join(q, sep) == LET p == TLCEval(q) IN JoinIn(p, sep, 1, Len(p))
ShapeText(s) == "(" \o Join([i \in 1..Len(s) |-> ToString(s[i])], ", ") \o ")"
NumsText(d, n) == Join([i \in 1..n |-> RText(d[i])], ", ")
TypeText == IF ty = "f" THEN "f" ELSE "d"
DataText(t) == "[" \o NumsText(t.d, Size(t)) \o "]"
DetailText(t) == "Tensor:\nTensorData<" \o TypeText \o ", CPUDevice>:\nShape: " \o ShapeText(t.s) \o "\nData: ["
                 \o NumsText(t.d, MinOf(10, Size(t))) \o (IF Size(t) > 10 THEN ", ..." ELSE "") \o "]\n"
Text(e) == /\ e.d \in DOMAIN ts /\ e.r.ok
           /\ e.r.ds = DataText(ts[e.d])
           /\ e.r.det = DetailText(ts[e.d])
           /\ e.r.sh = ShapeText(ts[e.d].s)
           /\ UNCHANGED storeVars

StoreStep(e) ==
  CASE e.op \in NewOps \cup MutOps \cup ViewOps -> Yields(e)
    [] e.op \in {"move", "masg"} -> Move(e)
    [] e.op = "drop" -> Drop(e)
    [] e.op = "eq" -> Compare(e)
    [] e.op = "get" -> Get(e)
    [] e.op = "getf" -> GetFlat(e)
    [] e.op = "snap" -> Snapshot(e)
    [] e.op = "shapeop" -> ShapeQuery(e)
    [] e.op = "flat" -> FlatQuery(e)
    [] e.op = "str" -> Text(e)
    [] OTHER -> FALSE
StoreOps == NewOps \cup MutOps \cup ViewOps \cup {"move", "masg", "drop", "eq", "get", "getf", "snap", "shapeop", "flat", "str"}
=============================================================================

------------------------------- MODULE RngStore -------------------------------
(***************************************************************************)
(* The shared random stream.  After seeding, what a draw gives is a        *)
(* function of the seed and of all draws since: memo remembers that        *)
(* function as far as it was observed.                                     *)
(*                                                                         *)
(*   seed n                                                                *)
(*   draw f a k -> v    k direct draws of kind f: rand, range lo hi,       *)
(*                      xavier n, he n, herange n lo hi, raw (the engine)  *)
(*   trand s how -> y, trandn s lo hi how -> y   random tensors            *)
(*   lnew k cfg -> ws   a layer with random parameters                     *)
(*   dnew id rate, dmode id on, dfwd id x -> y   dropout layers            *)
(*                                                                         *)
(* x has no zero elements, so that y shows the mask.                       *)
(***************************************************************************)
EXTENDS Datasets, FiniteSets
VARIABLES cur,   \* [seed, hist]: the seed and the draws since
          memo,  \* [seed, hist, sig] -> value, where it was observed
          ds,    \* dropout layers: [rate, on]
          ty
rngVars == <<cur, memo, ds, ty>>
RngInit == cur = [seed |-> "none", hist |-> <<>>] /\ memo = <<>> /\ ds = <<>> /\ ty = "x"

\* b's draws come after a's in one stream, or from another seed: long enough values differ.
Elsewhere(a, b) == a.seed # b.seed \/ (Len(a.hist) < Len(b.hist) /\ SubSeq(b.hist, 1, Len(a.hist)) = a.hist)
                                   \/ (Len(b.hist) < Len(a.hist) /\ SubSeq(a.hist, 1, Len(b.hist)) = b.hist)
\* A draw with signature sig gave the value v; wide: two independent values of it agree with a probability below 1e-12.
Drawn(signature, v, wide) ==
  LET sig == ToString(signature)
      key == [seed |-> cur.seed, hist |-> cur.hist, sig |-> sig]
  IN /\ cur.seed # "none"
     /\ Holds(key \in DOMAIN memo => memo[key] = v)
     /\ Holds(wide => \A k \in DOMAIN memo : k.sig = sig /\ Elsewhere(k, key) => memo[k] # v)
     /\ cur' = [cur EXCEPT !.hist = Append(@, sig)]
     /\ memo' = IF key \in DOMAIN memo THEN memo ELSE (key :> v) @@ memo

Between(q, lo, hi) == \A i \in 1..Len(q) : RIsNum(q[i]) /\ RLe(lo, q[i]) /\ RLe(q[i], hi)
\* Standardised draws of an initialiser with variance c / n
InitOk(q, n, c) ==
  LET z == TLCEval([i \in 1..Len(q) |-> RMul(q[i], RSqrt(RDiv(n, c)))])
      zz == TLCEval([i \in 1..Len(q) |-> RMul(z[i], z[i])])
  IN Len(q) >= 1000 => MeanIs(z, Zero, One) /\ MeanIs(zz, One, RSqrt(Two)) /\ MeanIs([i \in 1..(Len(q) - 1) |-> RMul(z[i], z[i + 1])], Zero, One)
UniformOk(q, lo, hi) ==
  LET z == TLCEval([i \in 1..Len(q) |-> RDiv(RSub(q[i], lo), RSub(hi, lo))])
  IN Len(q) >= 1000 /\ lo # hi => MeanIs(z, RLit("0.5"), RLit("0.28868")) /\ MeanIs([i \in 1..Len(z) |-> RMul(z[i], z[i])], RLit("0.333333333"), RLit("0.29815"))
\* A ball around the bound for the rounding of bounds that are no floats: the library draws floats.
DrawOk(e, q) ==
  LET a == RVec(e.a) IN
  /\ Len(q) = e.k
  /\ CASE e.f = "rand" -> Between(q, Zero, One) /\ UniformOk(q, Zero, One)
       [] e.f = "range" -> Between(q, a[1], a[2]) /\ UniformOk(q, a[1], a[2])
       [] e.f = "herange" -> Between(q, a[2], a[3])
       [] e.f = "xavier" -> Between(q, RNeg(Huge("f")), Huge("f")) /\ InitOk(q, a[1], One)
       [] e.f = "he" -> Between(q, RNeg(Huge("f")), Huge("f")) /\ InitOk(q, a[1], Two)
       [] e.f = "raw" -> Between(q, Zero, RLit("0x1.fffffffep+31"))
\* Draws that a bound may turn into the same number carry less information: these are not compared.
Informative(e) == e.k >= 6 /\ CASE e.f = "range" -> LET a == RVec(e.a) IN a[1] # a[2] [] e.f = "herange" -> FALSE [] OTHER -> TRUE

Seed(e) == e.r.ok /\ cur' = [seed |-> e.n, hist |-> <<>>] /\ UNCHANGED <<memo, ds>>
Draw(e) == /\ e.r.ok
           /\ Holds(DrawOk(e, RVec(e.r.v)))
           /\ Drawn(<<e.f, e.a, e.k>>, e.r.v, Informative(e))
           /\ UNCHANGED ds
RECURSIVE Prod(_, _)
Prod(s, i) == IF i = 0 THEN 1 ELSE s[i] * Prod(s, i - 1)
Size(s) == Prod(s, Len(s))
Tens(e) == /\ e.r.ok
           /\ e.r.y.s = e.s
           /\ LET q == RVec(e.r.y.d)
                  lo == IF e.op = "trand" THEN Zero ELSE RLit(e.lo)
                  hi == IF e.op = "trand" THEN One ELSE RLit(e.hi)
              IN Holds(Len(q) = Size(e.s) /\ Between(q, lo, hi))
           \* half of the draws and more may fall on a bound
           /\ Drawn(IF e.op = "trand" THEN <<"t", e.s, "0", "1">> ELSE <<"t", e.s, e.lo, e.hi>>, e.r.y.d, Size(e.s) >= 48 /\ (e.op = "trand" \/ (RLe(RLit(e.lo), Zero) /\ RLe(One, RLit(e.hi)))))
           /\ UNCHANGED ds
Layer(e) == /\ e.r.ok
            /\ Drawn(<<"layer", e.k, e.cfg>>, [i \in 1..Len(e.r.ws) |-> [s |-> e.r.ws[i].s, d |-> e.r.ws[i].d]], Len(e.r.ws) > 0 /\ Size(e.r.ws[1].s) >= 48)
            /\ UNCHANGED ds
DropNew(e) == e.r.ok /\ ds' = (e.id :> [rate |-> e.rate, on |-> TRUE]) @@ ds /\ UNCHANGED <<cur, memo>>
DropMode(e) == e.r.ok /\ e.id \in DOMAIN ds /\ ds' = [ds EXCEPT ![e.id].on = e.on] /\ UNCHANGED <<cur, memo>>
DropFwd(e) ==
  /\ e.r.ok /\ e.id \in DOMAIN ds
  /\ e.r.y.s = e.x.s
  /\ UNCHANGED ds
  /\ IF ds[e.id].on
       THEN LET q == TLCEval(RVec(e.r.y.d))
                mask == [i \in 1..Len(q) |-> q[i] = Zero]
                rate == RLit(ds[e.id].rate)
            IN Drawn(<<"drop", ds[e.id].rate, e.x.s>>, mask, Size(e.x.s) >= 100 /\ RLe(RLit("0.25"), rate) /\ RLe(rate, RLit("0.75")))
       ELSE Holds(RVec(e.r.y.d) = RVec(e.x.d)) /\ UNCHANGED <<cur, memo>>
RngStep(e) ==
  /\ UNCHANGED ty
  /\ CASE e.op = "seed" -> Seed(e)
       [] e.op = "draw" -> Draw(e)
       [] e.op \in {"trand", "trandn"} -> Tens(e)
       [] e.op = "lnew" -> Layer(e)
       [] e.op = "dnew" -> DropNew(e)
       [] e.op = "dmode" -> DropMode(e)
       [] e.op = "dfwd" -> DropFwd(e)
       [] OTHER -> FALSE
=============================================================================

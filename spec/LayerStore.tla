------------------------------ MODULE LayerStore ------------------------------
(***************************************************************************)
(* The layer objects a program holds and the calls it makes on them, plus  *)
(* the stateless activation functions and losses.  Events and replies as   *)
(* in TensorStore.                                                         *)
(*                                                                         *)
(*   lnew id k cfg a b f        -> ws      construct                       *)
(*   lcopy id p                            copy construct                  *)
(*   ldrop id                              destroy                         *)
(*   lset id w b                -> ws      setWeights, setBiases           *)
(*   lmode id on                           setTrainingMode                 *)
(*   lfwd id x                  -> y x     forward; its argument read again*)
(*   lbwd id g                  -> y g     backward; its argument again    *)
(*   lsee id v                  -> ws gs   parameters and their gradients  *)
(*                                         (v: as getters give them, or as *)
(*                                         an optimizer sees them)         *)
(*   lput id w                  -> ws gs   updateWeights with an optimizer *)
(*                                         that assigns w; what it saw     *)
(*   lmany id x n               -> ys      n forward passes (dropout)      *)
(*   afwd f a x, abwd f a x g   -> y ...   activation functions            *)
(*   lossv l x t, lossg l x t   -> y ...   losses                          *)
(***************************************************************************)
EXTENDS Layers, Losses

VARIABLES ls,  \* layer id -> layer
          ty   \* element type
layerVars == <<ls, ty>>
LayerInit == ls = <<>> /\ ty = "x"

P(y) == IF ty = "x" THEN T(y.s, y.d) ELSE T(y.s, RVec(y.d))
PS(q) == [i \in 1..Len(q) |-> P(q[i])]
Lit(y) == T(y.s, RVec(y.d))    \* arguments
Lits(q) == [i \in 1..Len(q) |-> Lit(q[i])]
Formed(t) == ValidShape(t.s) /\ Len(t.d) = Prod(t.s)

Trainable(L) == L.k \in {"fc", "conv", "bn"}
Same(L) == ls' = ls
NewL(e) == /\ e.r.ok
           /\ LET ws == PS(e.r.ws)
              IN Holds(MakeOk(e, ws)) /\ ls' = (e.id :> MakeLayer(e, ws)) @@ ls
CopyL(e) == e.p \in DOMAIN ls /\ e.r.ok /\ ls' = (e.id :> ls[e.p]) @@ ls
DropL(e) == e.id \in DOMAIN ls /\ e.r.ok /\ ls' = [i \in DOMAIN ls \ {e.id} |-> ls[i]]
SetL(e) == /\ e.id \in DOMAIN ls /\ e.r.ok
           /\ PS(e.r.ws) = <<Lit(e.w), Lit(e.b)>>
           /\ ls' = [ls EXCEPT ![e.id].ws = <<Lit(e.w), Lit(e.b)>>]
ModeL(e) == e.id \in DOMAIN ls /\ e.r.ok /\ ls' = [ls EXCEPT ![e.id].train = e.on]
FwdL(e) ==
  /\ e.id \in DOMAIN ls
  /\ LET L == ls[e.id]
         x == Lit(e.x)
     IN IF FwdRejects(L, x) THEN ~e.r.ok /\ UNCHANGED ls
        ELSE /\ e.r.ok
             /\ LET y == P(e.r.y)
                IN /\ Formed(y)
                   /\ P(e.r.x) = x
                   /\ Holds(FwdOk(ty, L, x, y))
                   /\ ls' = [ls EXCEPT ![e.id] = AfterFwd(ty, L, x, y)]
BwdL(e) ==
  /\ e.id \in DOMAIN ls
  /\ LET L == ls[e.id]
         g == Lit(e.g)
     IN IF BwdRejects(L, g) THEN ~e.r.ok /\ UNCHANGED ls
        ELSE /\ e.r.ok
             /\ LET y == P(e.r.y)
                IN /\ Formed(y)
                   /\ P(e.r.g) = g
                   /\ Holds(BwdOk(ty, L, g, y))
                   /\ ls' = [ls EXCEPT ![e.id] = AfterBwd(L, g)]
SeeL(e) ==
  /\ e.id \in DOMAIN ls /\ e.r.ok
  /\ LET gs == PS(e.r.gs)
     IN /\ Holds(SeeOk(ty, ls[e.id], PS(e.r.ws), gs))
        /\ ls' = [ls EXCEPT ![e.id] = AfterSee(@, gs)]
PutL(e) ==
  /\ e.id \in DOMAIN ls /\ e.r.ok
  /\ LET L == ls[e.id]
         gs == PS(e.r.gs)
     IN /\ Holds(SeeOk(ty, L, PS(e.r.ws), gs))
        /\ e.r.calls = (IF Trainable(L) THEN 1 ELSE 0)
        /\ ls' = [ls EXCEPT ![e.id] = [AfterSee(L, gs) EXCEPT !.ws = IF Trainable(L) THEN Lits(e.w) ELSE @]]

Act(e) == [f |-> e.f, a |-> RLit(e.a)]
FwdA(e) == LET x == Lit(e.x) IN
  /\ IF ActRejects(Act(e), x) THEN ~e.r.ok
     ELSE Holds(e.r.ok /\ Formed(P(e.r.y)) /\ P(e.r.x) = x /\ ActFwdOk(ty, Act(e), x, P(e.r.y)))
  /\ UNCHANGED ls
BwdA(e) == LET x == Lit(e.x) g == Lit(e.g) IN
  /\ IF ActRejects(Act(e), x) THEN ~e.r.ok
     ELSE Holds(e.r.ok /\ Formed(P(e.r.y)) /\ P(e.r.x) = x /\ P(e.r.g) = g /\ ActBwdOk(ty, Act(e), x, g, P(e.r.y)))
  /\ UNCHANGED ls
LossV(e) == LET x == Lit(e.x) t == Lit(e.t) IN
  /\ IF LossRejects(e.l, x, t) THEN ~e.r.ok
     ELSE Holds(e.r.ok /\ P(e.r.x) = x /\ P(e.r.t) = t /\ LossOk(ty, e.l, x, t, P(e.r.y)))
  /\ UNCHANGED ls
LossG(e) == LET x == Lit(e.x) t == Lit(e.t) IN
  /\ IF LossRejects(e.l, x, t) THEN ~e.r.ok
     ELSE Holds(e.r.ok /\ P(e.r.x) = x /\ P(e.r.t) = t /\ LossGradOk(ty, e.l, x, t, P(e.r.y)))
  /\ UNCHANGED ls

\* Many training-mode passes of one input through a dropout layer.
ManyL(e) ==
  /\ e.id \in DOMAIN ls /\ e.r.ok
  /\ LET L == ls[e.id]
         x == Lit(e.x)
         ys == TLCEval(PS(e.r.ys))
     IN /\ L.k = "drop" /\ L.train /\ Len(ys) = e.n
        /\ Holds(\A i \in 1..Len(ys) : FwdOk(ty, L, x, ys[i]))
        /\ Holds(MasksOk(L, x, ys))
        /\ ls' = [ls EXCEPT ![e.id] = AfterFwd(ty, L, x, ys[Len(ys)])]

LayerStep(e) ==
  /\ UNCHANGED ty
  /\ CASE e.op = "lnew" -> NewL(e)
       [] e.op = "lcopy" -> CopyL(e)
       [] e.op = "ldrop" -> DropL(e)
       [] e.op = "lset" -> SetL(e)
       [] e.op = "lmode" -> ModeL(e)
       [] e.op = "lfwd" -> FwdL(e)
       [] e.op = "lbwd" -> BwdL(e)
       [] e.op = "lsee" -> SeeL(e)
       [] e.op = "lput" -> PutL(e)
       [] e.op = "lmany" -> ManyL(e)
       [] e.op = "afwd" -> FwdA(e)
       [] e.op = "abwd" -> BwdA(e)
       [] e.op = "lossv" -> LossV(e)
       [] e.op = "lossg" -> LossG(e)
       [] OTHER -> FALSE
=============================================================================

------------------------------- MODULE TapStore -------------------------------
(***************************************************************************)
(* Models of the library's own layers, losses and optimizers, seen from    *)
(* inside: every call a model makes on its parts is recorded with its      *)
(* values.  Control says which calls are due with which values; here every *)
(* call must also do what the specification of its part says, which        *)
(* includes rejecting what the part rejects.                               *)
(*                                                                         *)
(*   madd m l k cfg a b f -> ws        layer l of kind k                   *)
(*   mset l w b -> ws                  set its parameters                  *)
(*   mcompile m f lk o k opts          loss f of kind lk, optimizer o of   *)
(*                                     kind k with options opts            *)
(* and the other calls of Control.  The recorded calls have in addition    *)
(*   upd  calls            what the layer asked of the optimizer: ws gs lr,*)
(*                         and the parameters ws2 after that               *)
(***************************************************************************)
EXTENDS Layers, Losses, Optimizers
VARIABLES ms, pc,  \* of Control
          tl,      \* layer -> its state
          tf,      \* loss -> its kind
          to,      \* optimizer -> [k, o, st], st: what it remembers, for <<layer, parameter>>
          wild,    \* the layers that have met numbers too large to compute with
          ty
tapVars == <<ms, pc, tl, tf, to, wild, ty>>
C == INSTANCE Control WITH CheckText <- FALSE
TapInit == C!CtlInit /\ tl = <<>> /\ tf = <<>> /\ to = <<>> /\ wild = {} /\ ty = "x"

P(y) == T(y.s, RVec(y.d))
PS(q) == TLCEval([i \in 1..Len(q) |-> P(q[i])])
Formed(t) == ValidShape(t.s) /\ Len(t.d) = Prod(t.s)
\* When training diverges, products overflow and nothing is said about values any more; what is called is still what is due.
Calm(t) == LET b == IF ty = "f" THEN RLit("1e12") ELSE RLit("1e100") IN \A i \in 1..Len(t.d) : RIsNum(t.d[i]) /\ RLe(RAbs(t.d[i]), b)
CalmAll(q) == \A i \in 1..Len(q) : Calm(q[i])
Trainable(L) == L.k \in {"fc", "conv", "bn"}

AddT(e) == LET ws == PS(e.r.ws) IN Holds(MakeOk(e, ws)) /\ tl' = (e.l :> MakeLayer(e, ws)) @@ tl /\ UNCHANGED <<tf, to, wild>>
SetT(e) == /\ e.l \in DOMAIN tl /\ e.r.ok
           /\ PS(e.r.ws) = <<P(e.w), P(e.b)>>
           /\ tl' = [tl EXCEPT ![e.l].ws = <<P(e.w), P(e.b)>>]
           /\ UNCHANGED <<tf, to, wild>>
CompileT(e) == /\ tf' = (e.f :> e.lk) @@ tf
               /\ to' = (e.o :> [k |-> e.k, o |-> Options(ty, e.k, e.opts), st |-> <<>>]) @@ to
               /\ UNCHANGED <<tl, wild>>
ModeT(e) == LET of == {ms[e.m].ls[i].l : i \in 1..Len(ms[e.m].ls)}
            IN tl' = [l \in DOMAIN tl |-> IF l \in of THEN [tl[l] EXCEPT !.train = e.on] ELSE tl[l]] /\ UNCHANGED <<tf, to, wild>>
FwdT(e) ==
  LET L == tl[e.l]
      x == P(e.x)
  IN /\ e.thr = FwdRejects(L, x)
     /\ UNCHANGED <<tf, to>>
     /\ wild' = IF Calm(x) /\ CalmAll(L.ws) /\ (e.thr \/ Calm(P(e.y))) THEN wild ELSE wild \cup {e.l}
     /\ IF e.thr THEN UNCHANGED tl
        ELSE LET y == P(e.y)
             IN /\ Formed(y)
                /\ IF e.l \in wild' THEN UNCHANGED tl ELSE Holds(FwdOk(ty, L, x, y)) /\ tl' = [tl EXCEPT ![e.l] = AfterFwd(ty, L, x, y)]
BwdT(e) ==
  LET L == tl[e.l]
      g == P(e.g)
  IN /\ (e.l \notin wild => e.thr = BwdRejects(L, g))
     /\ UNCHANGED <<tf, to>>
     /\ wild' = IF Calm(g) /\ (e.thr \/ Calm(P(e.y))) THEN wild ELSE wild \cup {e.l}
     /\ IF e.thr THEN UNCHANGED tl
        ELSE LET y == P(e.y)
             IN /\ Formed(y)
                /\ (e.l \notin wild' => Holds(BwdOk(ty, L, g, y)))
                /\ tl' = [tl EXCEPT ![e.l] = AfterBwd(L, g)]
UpdT(e) ==
  LET L == tl[e.l]
      O == to[e.o]
  IN /\ UNCHANGED tf
     /\ e.thr = (Trainable(L) /\ ~Learnt(L))
     /\ IF e.thr \/ ~Trainable(L) THEN e.calls = <<>> /\ UNCHANGED <<tl, to, wild>>
        ELSE /\ Len(e.calls) = 1
             /\ LET c == e.calls[1]
                    n == Len(L.ws)
                    gs == PS(c.gs)
                    after == PS(c.ws2)
                    st(j) == IF <<e.l, j>> \in DOMAIN O.st THEN O.st[<<e.l, j>>] ELSE Fresh(L.ws[j].s)
                    us == TLCEval([j \in 1..n |-> UpdateOf(ty, O, st(j), RLit(c.lr), L.ws[j], gs[j])])
                IN /\ PS(c.ws) = L.ws /\ Len(gs) = n /\ Len(after) = n
                   /\ wild' = IF CalmAll(gs) THEN wild ELSE wild \cup {e.l}
                   /\ tl' = [tl EXCEPT ![e.l] = [AfterSee(L, gs) EXCEPT !.ws = after]]
                   /\ IF e.l \in wild' THEN UNCHANGED to
                      ELSE /\ Holds(SeeOk(ty, L, L.ws, gs))
                           /\ Holds(\A j \in 1..n : UpdateOk(ty, us[j], L.ws[j], after[j]))
                           /\ to' = [to EXCEPT ![e.o].st = [p \in {<<e.l, j>> : j \in 1..n} |-> us[p[2]].st] @@ @]
LossT(e) == LET p == P(e.p) t == P(e.t) IN /\ e.thr = LossRejects(tf[e.f], p, t)
                                           /\ (~e.thr /\ Calm(p) => Holds(LossOk(ty, tf[e.f], p, t, P(e.v))))
                                           /\ UNCHANGED <<tl, tf, to, wild>>
GradT(e) == LET p == P(e.p) t == P(e.t) IN /\ e.thr = LossRejects(tf[e.f], p, t)
                                           /\ (~e.thr /\ Calm(p) => Holds(LossGradOk(ty, tf[e.f], p, t, P(e.g))))
                                           /\ UNCHANGED <<tl, tf, to, wild>>
TapStep(e) ==
  /\ UNCHANGED ty
  /\ IF e.op = "mset" THEN SetT(e) /\ UNCHANGED <<ms, pc>>
     ELSE /\ C!CtlStep(e)
          /\ CASE e.op = "madd" -> AddT(e)
               [] e.op = "mcompile" -> CompileT(e)
               [] e.op = "mmode" -> ModeT(e)
               [] e.op = "fwd" -> FwdT(e)
               [] e.op = "bwd" -> BwdT(e)
               [] e.op = "upd" -> UpdT(e)
               [] e.op = "loss" -> LossT(e)
               [] e.op = "grad" -> GradT(e)
               [] OTHER -> UNCHANGED <<tl, tf, to, wild>>
=============================================================================

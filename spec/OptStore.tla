------------------------------- MODULE OptStore -------------------------------
(***************************************************************************)
(* The optimizer objects and parameter tensors a program holds, and its    *)
(* calls.                                                                  *)
(*                                                                         *)
(*   onew id k o            optimizer of kind k; o: its options, "-" where *)
(*                          the program leaves the default                 *)
(*   ocopy id p             copy of an optimizer                           *)
(*   pnew id t              new parameter tensor                           *)
(*   pput id t              the program overwrites its elements            *)
(*   passign id t           the program assigns another tensor to it       *)
(*   opt id ps gs lr -> ws gs   optimize; lr "-" where it is not given     *)
(*   pall -> all            all parameter tensors                          *)
(***************************************************************************)
EXTENDS Optimizers
VARIABLES os,  \* optimizers: [k, o, st], st: parameter id -> what is remembered of it
          ps,  \* parameter tensors
          ty
optVars == <<os, ps, ty>>
OptInit == os = <<>> /\ ps = <<>> /\ ty = "x"

P(y) == IF ty = "x" THEN T(y.s, y.d) ELSE T(y.s, RVec(y.d))
Lit(y) == T(y.s, RVec(y.d))

NewO(e) == e.r.ok /\ os' = (e.id :> [k |-> e.k, o |-> Options(ty, e.k, e.o), st |-> <<>>]) @@ os /\ UNCHANGED ps
CopyO(e) == e.p \in DOMAIN os /\ e.r.ok /\ os' = (e.id :> os[e.p]) @@ os /\ UNCHANGED ps
PutP(e) == e.r.ok /\ ps' = (e.id :> Lit(e.t)) @@ ps /\ UNCHANGED os
Opt(e) ==
  /\ e.id \in DOMAIN os
  /\ \A i \in 1..Len(e.ps) : e.ps[i] \in DOMAIN ps
  /\ IF Len(e.ps) # Len(e.gs) THEN ~e.r.ok /\ UNCHANGED <<os, ps>>
     ELSE LET O == os[e.id]
              n == Len(e.ps)
              over == IF e.lr = "-" THEN RInt(-1) ELSE RLit(e.lr)
              Old(p) == IF p \in DOMAIN O.st THEN O.st[p] ELSE Fresh(ps[p].s)
              us == TLCEval([i \in 1..n |-> UpdateOf(ty, O, Old(e.ps[i]), over, ps[e.ps[i]], Lit(e.gs[i]))])
              no(p) == CHOOSE i \in 1..n : e.ps[i] = p
              these == {e.ps[i] : i \in 1..n}
          IN /\ e.r.ok
             /\ Len(e.r.ws) = n /\ Len(e.r.gs) = n
             /\ Holds(\A i \in 1..n : P(e.r.gs[i]) = Lit(e.gs[i]) /\ UpdateOk(ty, us[i], ps[e.ps[i]], P(e.r.ws[i])))
             /\ os' = [os EXCEPT ![e.id].st = [p \in these |-> us[no(p)].st] @@ @]
             /\ ps' = [p \in these |-> P(e.r.ws[no(p)])] @@ ps
All(e) == /\ e.r.ok
          /\ {e.r.all[k].i : k \in 1..Len(e.r.all)} = DOMAIN ps
          /\ Holds(\A k \in 1..Len(e.r.all) : P(e.r.all[k].t) = ps[e.r.all[k].i])
          /\ UNCHANGED <<os, ps>>
OptStep(e) ==
  /\ UNCHANGED ty
  /\ CASE e.op = "onew" -> NewO(e)
       [] e.op = "ocopy" -> CopyO(e)
       [] e.op \in {"pnew", "pput", "passign"} -> PutP(e)
       [] e.op = "opt" -> Opt(e)
       [] e.op = "pall" -> All(e)
       [] OTHER -> FALSE
=============================================================================

-------------------------------- MODULE MC_Opt --------------------------------
(***************************************************************************)
(* OptStore on its own: every program of Depth calls with two optimizers,  *)
(* two parameter tensors, groupings in every order, overrides, rejected    *)
(* calls and a copy, in (nearly) exact arithmetic.  The programs are also  *)
(* written out and executed by the real library.                           *)
(***************************************************************************)
EXTENDS OptStore, Json, SequencesExt
CONSTANTS Kind, Config, Depth
VARIABLES hist,   \* the calls so far
          up      \* <<optimizer, parameter>> -> its updates <<w, g>> so far

Given ==
  CASE Kind = "sgd" -> (CASE Config = 1 -> <<"0x1p-2", "0x1p-1", "0", "0", "0">>
                          [] Config = 2 -> <<"0x1p-2", "0x1p-1", "0x1p-2", "0x1p-3", "1">>
                          [] Config = 3 -> <<"1", "0", "0x1p-1", "0x1p-1", "1">>)
    [] Kind = "rms" -> (CASE Config = 1 -> <<"0x1p-2", "0x1p-1", "0x1p-4", "0", "0", "0">>
                          [] Config = 2 -> <<"0x1p-2", "0.75", "0x1p-4", "0x1p-1", "0x1p-3", "1">>
                          [] Config = 3 -> <<"0x1p-2", "0.75", "0x1p-4", "0x1p-1", "0", "0">>)
    [] Kind = "adam" -> (CASE Config = 1 -> <<"0x1p-2", "0x1p-1", "0.75", "0x1p-8", "0", "0", "0", "1">>
                           [] Config = 2 -> <<"0x1p-2", "0x1p-1", "0.75", "0x1p-8", "0x1p-3", "0x1p-4", "0x1p-1", "4">>
                           [] Config = 3 -> <<"0x1p-2", "0", "0.75", "0x1p-8", "0", "0", "1", "2">>)
Prefix == <<[op |-> "onew", id |-> 1, k |-> Kind, o |-> Given],
            [op |-> "onew", id |-> 2, k |-> Kind, o |-> Given],
            [op |-> "pnew", id |-> 1, t |-> [s |-> <<1>>, d |-> "1"]],
            [op |-> "pnew", id |-> 2, t |-> [s |-> <<2>>, d |-> "-1 0"]]>>
MCInit == /\ ty = "x"
          /\ hist = Prefix
          /\ os = [i \in {1, 2} |-> [k |-> Kind, o |-> Options("x", Kind, Given), st |-> <<>>]]
          /\ ps = [i \in {1, 2} |-> Lit(Prefix[2 + i].t)]
          /\ up = [x \in {1, 2} \X {1, 2} |-> <<>>]

G(p, v) == [s |-> Prefix[2 + p].t.s, d |-> IF p = 1 THEN v ELSE v \o " 3"]
Calls == {[op |-> "opt", id |-> o, ps |-> q, gs |-> [i \in 1..Len(q) |-> G(q[i], v)], lr |-> lr] :
             o \in {1, 2}, q \in {<<1>>, <<2>>, <<2, 1>>}, v \in {"1", "-2"}, lr \in {"-"}}
         \cup {[op |-> "opt", id |-> 1, ps |-> <<1, 2>>, gs |-> <<G(1, "1"), G(2, "-2")>>, lr |-> "0x1p-1"],
               [op |-> "opt", id |-> 1, ps |-> <<1, 2>>, gs |-> <<G(1, "1")>>, lr |-> "-"],
               [op |-> "opt", id |-> 2, ps |-> <<1>>, gs |-> <<G(1, "1"), G(2, "1")>>, lr |-> "0x1p-1"],
               [op |-> "ocopy", id |-> 2, p |-> 1],
               [op |-> "pput", id |-> 1, t |-> [s |-> <<1>>, d |-> "5"]]}
Shown(t) == [s |-> t.s, d |-> t.d]
Exactly(e, i) ==
  LET O == os[e.id]
      p == e.ps[i]
      over == IF e.lr = "-" THEN RInt(-1) ELSE RLit(e.lr)
      st == IF p \in DOMAIN O.st THEN O.st[p] ELSE Fresh(ps[p].s)
  IN UpdateVal(UpdateOf("x", O, st, over, ps[p], Lit(e.gs[i])), ps[p])
Reply(e) ==
  IF e.op # "opt" THEN [ok |-> TRUE]
  ELSE IF Len(e.ps) # Len(e.gs) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, ws |-> [i \in 1..Len(e.ps) |-> Shown(Exactly(e, i))], gs |-> [i \in 1..Len(e.gs) |-> Shown(Lit(e.gs[i]))]]
Updates(e) == e.op = "opt" /\ Len(e.ps) = Len(e.gs)
MCNext == /\ Len(hist) < Len(Prefix) + Depth
          /\ \E e \in Calls : /\ OptStep(e @@ [r |-> Reply(e)])
                              /\ hist' = Append(hist, e)
                              /\ up' = [x \in DOMAIN up |->
                                          IF e.op = "ocopy" /\ x[1] = e.id THEN up[<<e.p, x[2]>>]
                                          ELSE IF Updates(e) /\ x[1] = e.id /\ \E i \in 1..Len(e.ps) : e.ps[i] = x[2]
                                            THEN Append(up[x], [w |-> ps[x[2]], g |-> Lit(e.gs[CHOOSE i \in 1..Len(e.ps) : e.ps[i] = x[2]])])
                                          ELSE up[x]]
MCVars == <<os, ps, ty, hist, up>>
OptView == <<os, ps, up, Len(hist)>>

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
Near(a, b) == RLe(RAbs(RSub(a, b)), RLit("1e-25"))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN One ELSE RMul(b, Pow(b, n - 1))
\* sum_i a^(n-i) c x_i
Weighted(a, c, xs) == RSum([i \in 1..Len(xs) |-> RMul(RMul(Pow(a, Len(xs) - i), c), xs[i])])
\* Every call gets an answer.
Total == Len(hist) < Len(Prefix) + Depth => \A e \in Calls : ENABLED OptStep(e @@ [r |-> Reply(e)])
\* What is remembered is the closed form of the updates made through this optimizer to this tensor, and of nothing else.
ClosedForm == \A o \in {1, 2}, p \in {1, 2} :
  LET h == up[<<o, p>>]
      O == os[o].o
  IN IF h = <<>> THEN p \notin DOMAIN os[o].st
     ELSE /\ os[o].st[p].n = Len(h)
          /\ \A i \in 1..Len(ps[p].d) :
               LET g == [j \in 1..Len(h) |-> IF Kind = "adam" THEN RDiv(h[j].g.d[i], O.batch) ELSE RAdd(h[j].g.d[i], RMul(O.wd, h[j].w.d[i]))]
                   g2 == [j \in 1..Len(h) |-> RMul(g[j], g[j])]
                   st == os[o].st[p]
               IN CASE Kind = "sgd" -> O.mom # Zero => Near(st.v[i].c, Weighted(O.mom, RSub(One, O.damp), g))
                    [] Kind = "rms" -> /\ Near(st.q[i].c, Weighted(O.alpha, RSub(One, O.alpha), g2))
                                       /\ O.cen # Zero => Near(st.m[i].c, Weighted(O.alpha, RSub(One, O.alpha), g))
                    [] Kind = "adam" -> /\ Near(st.q[i].c, Weighted(O.b2, RSub(One, O.b2), g2))
                                        /\ Near(st.m[i].c, Weighted(O.b1, RSub(One, O.b1), g))
                                        /\ Near(st.p1, Pow(O.b1, Len(h)))
                                        \* the corrected average of equal gradients is that gradient
                                        /\ (\A j \in 1..Len(h) : g[j] = g[1]) => Near(st.m[i].c, RMul(g[1], RSub(One, Pow(O.b1, Len(h)))))
\* The variance estimate of centred RMSProp is not negative.
Positive == Kind = "rms" => \A o \in {1, 2} : \A p \in DOMAIN os[o].st : \A i \in 1..Len(os[o].st[p].q) :
              RLe(RSub(RMul(os[o].st[p].m[i].c, os[o].st[p].m[i].c), RLit("1e-25")), os[o].st[p].q[i].c)
Named(e) == IF e.op = "opt" THEN {e.ps[i] : i \in 1..Len(e.ps)} ELSE {}
\* A call touches the tensors it names and what its optimizer remembers of them; a rejected one nothing.
Isolation == [][LET e == hist'[Len(hist')] IN
  /\ \A p \in {1, 2} : (p \notin Named(e) /\ ~(e.op = "pput" /\ e.id = p)) \/ (e.op = "opt" /\ ~Updates(e)) => ps'[p] = ps[p]
  /\ \A o \in {1, 2}, p \in {1, 2} : (~Updates(e) \/ o # e.id \/ p \notin Named(e)) /\ e.op # "ocopy"
        => ((p \in DOMAIN os[o].st) = (p \in DOMAIN os'[o].st) /\ (p \in DOMAIN os[o].st => os'[o].st[p] = os[o].st[p]))
  /\ \A o \in {1, 2} : os'[o].o = os[o].o]_MCVars
\* Whether two tensors are updated in one call or in two makes no difference.
Grouping == \A o \in {1, 2} : Len(hist) < Len(Prefix) + Depth =>
  LET e == [op |-> "opt", id |-> o, ps |-> <<1, 2>>, gs |-> <<G(1, "1"), G(2, "-2")>>, lr |-> "-"]
      a == [op |-> "opt", id |-> o, ps |-> <<1>>, gs |-> <<G(1, "1")>>, lr |-> "-"]
      b == [op |-> "opt", id |-> o, ps |-> <<2>>, gs |-> <<G(2, "-2")>>, lr |-> "-"]
  IN Exactly(e, 1) = Exactly(a, 1) /\ Exactly(e, 2) = Exactly(b, 1)
Emit == Len(hist) >= Len(Prefix) + Depth => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

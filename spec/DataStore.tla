------------------------------- MODULE DataStore -------------------------------
(***************************************************************************)
(* Files, loaders and generated data sets.                                 *)
(*                                                                         *)
(*   fput id by         the file holds exactly the bytes by                 *)
(*   fdel id            the file is gone                                   *)
(*   mldr l im lb batch n   loader for two files; n = -1: no limit         *)
(*   mload l -> xs ts   loads: image batches and label batches             *)
(*   art l t -> rows end    rendering of an image; end: it ends with a     *)
(*                      line break                                         *)
(*   lin n noise -> xs ts,  linb n batch noise -> xs ts                    *)
(***************************************************************************)
EXTENDS Mnist, Datasets
VARIABLES fs,   \* file -> bytes
          lds,  \* loader -> [im, lb, batch, n]
          ty
dataVars == <<fs, lds, ty>>
DataInit == fs = <<>> /\ lds = <<>> /\ ty = "x"
File(id) == IF id \in DOMAIN fs THEN fs[id] ELSE Missing

Put(e) == e.r.ok /\ fs' = (e.id :> e.by) @@ fs /\ UNCHANGED lds
Delete(e) == e.r.ok /\ fs' = [i \in DOMAIN fs \ {e.id} |-> fs[i]] /\ UNCHANGED lds
NewLoader(e) == e.r.ok /\ lds' = (e.l :> [im |-> e.im, lb |-> e.lb, batch |-> e.batch, n |-> e.n]) @@ lds /\ UNCHANGED fs
Load(e) == /\ e.l \in DOMAIN lds
           /\ LET L == lds[e.l] IN Holds(LoadOk(ty, File(L.im), File(L.lb), L.batch, L.n, e.r))
           /\ UNCHANGED <<fs, lds>>
Art(e) == e.r.ok /\ e.r.end /\ Holds(ArtOk(e.t, e.r.rows)) /\ UNCHANGED <<fs, lds>>
RECURSIVE Cat(_, _)
Cat(q, i) == IF i = 0 THEN <<>> ELSE Cat(q, i - 1) \o q[i]
Firsts(q) == [i \in 1..Len(q) |-> RLit(q[i].d)]
Linear(e) == /\ e.r.ok
             /\ Len(e.r.xs) = e.n /\ Len(e.r.ts) = e.n
             /\ Holds(\A i \in 1..e.n : e.r.xs[i].s = <<1>> /\ e.r.ts[i].s = <<1>>)
             /\ Holds(DataOk(TLCEval(Firsts(e.r.xs)), TLCEval(Firsts(e.r.ts)), RLit(e.noise)))
             /\ UNCHANGED <<fs, lds>>
LinearB(e) == /\ e.r.ok
              /\ Len(e.r.xs) = NBatches(e.n, e.batch) /\ Len(e.r.ts) = Len(e.r.xs)
              /\ Holds(\A i \in 1..Len(e.r.xs) : e.r.xs[i].s = <<BatchSize(e.n, e.batch, i), 1>> /\ e.r.ts[i].s = e.r.xs[i].s)
              /\ LET V(q) == TLCEval([i \in 1..Len(q) |-> RVec(q[i].d)])
                     F(q) == TLCEval([i \in 1..e.n |-> q[((i - 1) \div e.batch) + 1][((i - 1) % e.batch) + 1]])
                 IN Holds(Fresh(V(e.r.xs)) /\ DataOk(F(V(e.r.xs)), F(V(e.r.ts)), RLit(e.noise)))
              /\ UNCHANGED <<fs, lds>>
DataStep(e) ==
  /\ UNCHANGED ty
  /\ CASE e.op = "fput" -> Put(e)
       [] e.op = "fdel" -> Delete(e)
       [] e.op = "mldr" -> NewLoader(e)
       [] e.op = "mload" -> Load(e)
       [] e.op = "art" -> Art(e)
       [] e.op = "lin" -> Linear(e)
       [] e.op = "linb" -> LinearB(e)
       [] OTHER -> FALSE
=============================================================================

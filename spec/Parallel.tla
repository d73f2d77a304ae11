------------------------------- MODULE Parallel -------------------------------
(***************************************************************************)
(* Parallel regions.  A region is what the threads of one parallel loop do *)
(* between two barriers; e.gs groups the bytes of shared memory it touches *)
(* by the threads that read them (r) and that write them (w).              *)
(*                                                                         *)
(* A region is deterministic when no byte that one thread writes is read   *)
(* or written by another one.  MC_Parallel shows that this, observed for   *)
(* any single order of the threads, implies that every interleaving gives  *)
(* the same result.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Among(q) == {q[i] : i \in 1..Len(q)}
Private(r, w) == \A t \in w : w = {t} /\ r \subseteq {t}
RegionOk(e) == \A j \in 1..Len(e.gs) : Private(Among(e.gs[j].r), Among(e.gs[j].w))
=============================================================================

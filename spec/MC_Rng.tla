-------------------------------- MODULE MC_Rng --------------------------------
(***************************************************************************)
(* RngStore on its own, with generators written down here: every program   *)
(* of Depth calls.  The sound ones must always be accepted, each unsound   *)
(* one must be refused by some program.                                    *)
(*                                                                         *)
(*   stream    a value per seed and position                               *)
(*   constant  always the same value                                       *)
(*   deaf      a stream that ignores the seed                              *)
(*   rewind    every draw starts at the seed again                         *)
(*   pair      draws two values at a time and keeps the second over a seed *)
(*   ownclock  every kind of draw has its own engine; only one is seeded   *)
(***************************************************************************)
EXTENDS RngStore, Json
CONSTANTS Gen, Depth
VARIABLES hist, seed, pos, spare, own
mcv == <<cur, memo, ds, ty, hist, seed, pos, spare, own>>
X == [s |-> <<100>>, d |-> "1 2"]  \* stands for a long input
MCInit == RngInit /\ hist = <<>> /\ seed = "none" /\ pos = 0 /\ spare = "" /\ own = 0
Calls == {[op |-> "seed", n |-> n] : n \in {"1", "2"}}
         \cup {[op |-> "draw", f |-> "raw", a |-> "", k |-> 8], [op |-> "lnew", k |-> "fc", cfg |-> <<8, 8>>], [op |-> "trandn", s |-> <<50>>, lo |-> "-4", hi |-> "4", how |-> "shape"]}
\* The value drawn: a number made of seed and position.
Take(e) ==
  CASE Gen = "constant" -> "7"
    [] Gen = "deaf" -> ToString(1000 + pos)
    [] Gen = "rewind" -> seed \o "0"
    [] Gen = "pair" -> IF spare # "" THEN spare ELSE seed \o ToString(1000 + pos)
    [] Gen = "ownclock" /\ e.op = "lnew" -> ToString(5000 + own)
    [] OTHER -> seed \o ToString(1000 + pos)
Ones(n, v) == LET J[i \in 0..n] == IF i = 0 THEN "" ELSE J[i - 1] \o (IF i > 1 THEN " " ELSE "") \o (IF i = 1 THEN v ELSE "1") IN J[n]
Reply(e) ==
  CASE e.op = "seed" -> [ok |-> TRUE]
    [] e.op = "draw" -> [ok |-> TRUE, v |-> Ones(8, Take(e))]
    [] e.op = "lnew" -> [ok |-> TRUE, ws |-> <<[s |-> <<8, 8>>, d |-> Take(e)]>>]
    [] e.op = "trandn" -> [ok |-> TRUE, y |-> [s |-> <<50>>, d |-> Ones(50, "0." \o Take(e))]]
Internal(e) ==
  CASE e.op = "seed" -> seed' = e.n /\ pos' = 0 /\ UNCHANGED <<spare, own>>
    [] OTHER -> /\ pos' = pos + 1 /\ UNCHANGED seed
                /\ spare' = (IF Gen = "pair" THEN IF spare = "" THEN seed \o ToString(2000 + pos) ELSE "" ELSE "")
                /\ own' = own + (IF e.op = "lnew" THEN 1 ELSE 0)
Can(e) == (e.op = "seed") \/ (seed # "none")
MCNext == /\ Len(hist) < Depth
          /\ \E e \in Calls : Can(e) /\ RngStep(e @@ [r |-> Reply(e)]) /\ Internal(e) /\ hist' = Append(hist, e)
Accepted == Len(hist) < Depth => \A e \in Calls : Can(e) => ENABLED RngStep(e @@ [r |-> Reply(e)])
\* Observing more never changes what was observed.
Remembers == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_mcv
Emit == Len(hist) = Depth => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

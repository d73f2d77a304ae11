------------------------------- MODULE Datasets -------------------------------
(***************************************************************************)
(* The generated data sets: target = 2 input + 3 + noise, 0 <= input <=    *)
(* 100.  Random values are judged by bounds that a correct generator       *)
(* exceeds with a probability below 1e-11 per call.                        *)
(***************************************************************************)
EXTENDS Approx
Sigmas == RInt(7)
\* target - (2 input + 3)
Residual(x, t) == RSub(t, RAdd(RMul(Two, x), RInt(3)))
\* Rounding of the generator's float arithmetic for numbers up to 203 + noise.
Slack(x, t) == RMul(RLit("0x1p-21"), RAdd(RAdd(RInt(3), RMul(Two, RAbs(x))), RAbs(t)))
RelationOk(xs, ts, noise) ==
  \A i \in 1..Len(xs) : /\ RLe(Zero, xs[i]) /\ RLe(xs[i], RInt(100))
                        /\ RIsNum(ts[i])
                        /\ RLe(RAbs(Residual(xs[i], ts[i])), RAdd(RMul(RInt(8), noise), Slack(xs[i], ts[i])))
\* |mean of q - m| <= 7 sd / sqrt(Len(q)), for independent q with expectation m and standard deviation at most sd; 1e-3: rounding.
MeanIs(q, m, sd) == RLe(RAbs(RSub(RDiv(RSum(q), RInt(Len(q))), m)), RAdd(RDiv(RMul(Sigmas, sd), RSqrt(RInt(Len(q)))), RLit("1e-3")))
(***************************************************************************)
(* The noise of many samples: mean 0, variance noise^2, fourth moment 3    *)
(* noise^4, 68.27 % within one standard deviation, unrelated to its predecessor and to the input.  (Standard      *)
(* deviations of z^2, z^4, z z', z x for normal z: sqrt 2, sqrt 96, 1,      *)
(* |x|.)                                                                   *)
(***************************************************************************)
NormalOk(xs, ts, noise) ==
  LET n == Len(xs)
      z == TLCEval([i \in 1..n |-> RDiv(Residual(xs[i], ts[i]), noise)])
      zz == TLCEval([i \in 1..n |-> RMul(z[i], z[i])])
  IN /\ MeanIs(z, Zero, One)
     /\ MeanIs(zz, One, RSqrt(Two))
     /\ MeanIs([i \in 1..n |-> RMul(zz[i], zz[i])], RInt(3), RSqrt(RInt(96)))
     /\ MeanIs([i \in 1..n |-> IF RLe(zz[i], One) THEN One ELSE Zero], RLit("0.682689"), RLit("0.4655"))
     /\ MeanIs([i \in 1..(n - 1) |-> RMul(z[i], z[i + 1])], Zero, One)
     /\ MeanIs([i \in 1..n |-> RMul(z[i], RDiv(RSub(xs[i], RInt(50)), RInt(50)))], Zero, One)
\* Seven neighbours with almost no noise at all: probability below 1e-10 for 5000 samples.
NoQuiet(xs, ts, noise) ==
  LET q == TLCEval([i \in 1..Len(xs) |-> RLe(RAbs(Residual(xs[i], ts[i])), RMul(RLit("0.01"), noise))])
  IN ~ \E i \in 1..(Len(xs) - 6) : \A j \in i..(i + 6) : q[j]
\* Two batches of four or more inputs are not the same.
Fresh(bs) == \A i \in 2..Len(bs) : Len(bs[i]) < 4 \/ (bs[i] # bs[i - 1] /\ bs[i] # bs[1])
\* The input is not constant either: two neighbours agree with probability 2^-20 or so.
Varied(xs) == Len(xs) < 20 \/ \E i \in 1..(Len(xs) - 1) : xs[i] # xs[i + 1]
DataOk(xs, ts, noise) ==
  /\ Len(xs) = Len(ts)
  /\ RelationOk(xs, ts, noise)
  /\ Varied(xs)
  /\ RLe(RLit("0.1"), noise) => NoQuiet(xs, ts, noise)
  /\ Len(xs) >= 2000 /\ noise # Zero => NormalOk(xs, ts, noise)
=============================================================================

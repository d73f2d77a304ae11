-------------------------------- MODULE MC_Data --------------------------------
(***************************************************************************)
(* The batch arithmetic and the statistics of Datasets on their own.       *)
(***************************************************************************)
EXTENDS DataStore, FiniteSetsExt
CONSTANTS MaxN, MaxBatch
VARIABLES n, batch
MCInit == DataInit /\ n \in 0..MaxN /\ batch \in 1..MaxBatch
MCNext == UNCHANGED <<fs, lds, ty, n, batch>>
\* The batches hold all samples, every one but the last is full, none is empty.
Batches == LET k == NBatches(n, batch) IN
  /\ MapThenSumSet(LAMBDA i : BatchSize(n, batch, i), 1..k) = n
  /\ \A i \in 1..k : BatchSize(n, batch, i) \in 1..batch /\ (i < k => BatchSize(n, batch, i) = batch)
\* Exact data satisfies the relation, data off the line does not.
Line(a, b) == LET xs == [i \in 1..10 |-> RInt(7 * i)] IN [x |-> xs, t |-> [i \in 1..10 |-> RAdd(RMul(RLit(a), xs[i]), RLit(b))]]
Relation == /\ LET q == Line("2", "3") IN DataOk(q.x, q.t, Zero) /\ RelationOk(q.x, q.t, One) /\ ~DataOk(q.x, q.t, One)
            /\ LET q == Line("2", "3.01") IN ~DataOk(q.x, q.t, Zero) /\ RelationOk(q.x, q.t, One)
            /\ LET q == Line("2.01", "3") IN ~DataOk(q.x, q.t, Zero)
            /\ LET q == Line("3", "2") IN ~DataOk(q.x, q.t, Zero) /\ ~DataOk(q.x, q.t, One)
\* Noise that is normal up to a deterministic sequence (quantiles visited in a scrambled order); the same with another spread, uniform
\* noise, biased noise and repeated noise.
N == 2003
Scrambled(i) == (((i * i) % N) * i) % N   \* a permutation: 3 does not divide N - 1
X == [i \in 1..N |-> RDiv(RInt(100 * ((i * 911) % N)), RInt(N))]
U(i) == RDiv(RAdd(RInt(Scrambled(i)), RLit("0.5")), RInt(N))
\* Normal quantile of u (Abramowitz and Stegun 26.2.23, error below 5e-4)
UpperTail(p) == LET t == RSqrt(RMul(RInt(-2), RLn(p)))
               t2 == RMul(t, t)
           IN RSub(t, RDiv(RAdd(RAdd(RLit("2.515517"), RMul(RLit("0.802853"), t)), RMul(RLit("0.010328"), t2)),
                           RAdd(RAdd(RAdd(One, RMul(RLit("1.432788"), t)), RMul(RLit("0.189269"), t2)), RMul(RLit("0.001308"), RMul(t, t2)))))
Quantile(u) == IF RLt(u, RLit("0.5")) THEN RNeg(UpperTail(u)) ELSE UpperTail(RSub(One, u))
Data(F(_)) == [i \in 1..N |-> RAdd(RAdd(RMul(Two, X[i]), RInt(3)), F(i))]
Statistics == (n = 0 /\ batch = 1) =>
  /\ NormalOk(X, Data(LAMBDA i : Quantile(U(i))), One)
  /\ NoQuiet(X, Data(LAMBDA i : Quantile(U(i))), One)
  /\ ~NoQuiet(X, Data(LAMBDA i : IF i > N - 7 THEN Zero ELSE Quantile(U(i))), One)
  /\ ~NormalOk(X, Data(LAMBDA i : RMul(RLit("1.5"), Quantile(U(i)))), One)
  /\ ~NormalOk(X, Data(LAMBDA i : RMul(RLit("3.4641016"), RSub(U(i), RLit("0.5")))), One)
  /\ ~NormalOk(X, Data(LAMBDA i : RAdd(RLit("0.25"), Quantile(U(i)))), One)
  /\ ~NormalOk(X, Data(LAMBDA i : Quantile(U((i \div 2) + 1))), One)
  /\ ~NormalOk(X, Data(LAMBDA i : Zero), One)
=============================================================================

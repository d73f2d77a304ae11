------------------------------- MODULE MC_Mnist -------------------------------
(***************************************************************************)
(* Mnist on its own: every pair of small files from the sets below (cut    *)
(* off at every length, wrong magic numbers, extreme counts), every batch  *)
(* size and limit.  The programs are also executed by the real library.    *)
(***************************************************************************)
EXTENDS DataStore, Json, SequencesExt
CONSTANTS Focus,     \* "good": well-formed files; "bad": the others
          MaxCount, MaxBatch
VARIABLES hist
BE(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Image(i, p) == [j \in 1..p |-> (i * 37 + j * 85) % 256]
RECURSIVE Images(_, _)
Images(k, p) == IF k = 0 THEN <<>> ELSE Images(k - 1, p) \o Image(k, p)
ImgFile(k, r, c) == BE(2051) \o BE(k) \o BE(r) \o BE(c) \o Images(k, r * c)
LblFile(k) == BE(2049) \o BE(k) \o [i \in 1..k |-> (i * 7) % 10]
Cut(b, n) == SubSeq(b, 1, n)
With(b, k, v) == [b EXCEPT ![k] = v]
FineImgs == {ImgFile(k, r, c) : k \in 0..MaxCount, r \in 1..2, c \in {1, 3}}
FineLbls == {LblFile(k) : k \in 0..MaxCount}
AnImg == ImgFile(2, 2, 1)
ALbl == LblFile(2)
BadImgs == {Cut(AnImg, n) : n \in 0..Len(AnImg)} \cup {With(AnImg, 4, 1), With(AnImg, 1, 8), With(AnImg, 5, 255), With(AnImg, 8, 3), With(AnImg, 7, 1), With(AnImg, 5, 127), With(AnImg, 12, 0), With(AnImg, 9, 255), Missing}
BadLbls == {Cut(ALbl, n) : n \in 0..Len(ALbl)} \cup {With(ALbl, 4, 3), With(ALbl, 3, 7), With(ALbl, 5, 128), With(ALbl, 8, 3), With(ALbl, 5, 127), With(ALbl, 9, 10), With(ALbl, 10, 255), Missing}
Imgs == IF Focus = "good" THEN FineImgs ELSE BadImgs
Lbls == IF Focus = "good" THEN FineLbls ELSE BadLbls
MCInit == DataInit /\ hist = <<>>
\* The one result Mnist allows for files that are not odd.
Seqs(q) == [i \in 1..Len(q) |-> q[i]]
RECURSIVE Text(_, _)
Text(q, i) == IF i = 0 THEN "" ELSE IF i = 1 THEN RStr(q[1]) ELSE Text(q, i - 1) \o " " \o RStr(q[i])
Result(im, lb, batch, n) ==
  IF MustFail(im, lb, n) THEN [ok |-> FALSE]
  ELSE LET k == Wanted(im, n)
           m == Wanted(lb, n)
           p == IF k = 0 THEN 1 ELSE Pixels(im)
           Xs(i) == LET b == BatchSize(k, batch, i) IN [s |-> <<b, 1, Rows(im), Cols(im)>>, d |-> LET q == [j \in 1..(b * p) |-> RDiv(RInt(im[16 + (i - 1) * batch * p + j]), RInt(255))] IN Text(q, Len(q))]
           Ts(i) == LET b == BatchSize(m, batch, i) IN [s |-> <<b, 10>>, d |-> LET q == [j \in 1..(10 * b) |-> IF lb[8 + (i - 1) * batch + ((j - 1) \div 10) + 1] = (j - 1) % 10 THEN One ELSE Zero] IN Text(q, Len(q))]
       IN [ok |-> TRUE, xs |-> [i \in 1..NBatches(k, batch) |-> Xs(i)], ts |-> [i \in 1..NBatches(m, batch) |-> Ts(i)]]
LoaderOf == lds[1]
Reply(e) == IF e.op # "mload" THEN [ok |-> TRUE] ELSE Result(File(LoaderOf.im), File(LoaderOf.lb), LoaderOf.batch, LoaderOf.n)
Write(id, b) == IF b = Missing THEN [op |-> "fdel", id |-> id] ELSE [op |-> "fput", id |-> id, by |-> b]
Next1(e) == DataStep(e @@ [r |-> Reply(e)]) /\ hist' = Append(hist, e)
MCNext == CASE Len(hist) = 0 -> \E b \in Imgs : Next1(Write(1, b))
            [] Len(hist) = 1 -> \E b \in Lbls : Next1(Write(2, b))
            [] Len(hist) = 2 -> \E batch \in 1..MaxBatch, n \in -1..(MaxCount + 1) : Next1([op |-> "mldr", l |-> 1, im |-> 1, lb |-> 2, batch |-> batch, n |-> n])
            [] Len(hist) = 3 -> Next1([op |-> "mload", l |-> 1])
            [] Len(hist) = 4 -> Next1([op |-> "mload", l |-> 1])
            [] OTHER -> FALSE
(***************************************************************************)
(* Invariants over the finished loads                                      *)
(***************************************************************************)
Loaded == Len(hist) >= 4
Im == File(1)
Lb == File(2)
R == Result(Im, Lb, LoaderOf.batch, LoaderOf.n)
\* A result exists for every pair of files: the library is never asked for something impossible.
Total == Len(hist) \in {3, 4} => ENABLED Next1([op |-> "mload", l |-> 1])
\* Concatenated, the batches are the first samples of the file, every batch full but the last.
Whole == Loaded /\ R.ok =>
  LET k == Wanted(Im, LoaderOf.n)
      sizes == [i \in 1..Len(R.xs) |-> R.xs[i].s[1]]
  IN /\ FlattenSeq([i \in 1..Len(R.xs) |-> RVec(R.xs[i].d)]) = [j \in 1..(IF k = 0 THEN 0 ELSE k * Pixels(Im)) |-> RDiv(RInt(Im[16 + j]), RInt(255))]
     /\ \A i \in 1..(Len(sizes) - 1) : sizes[i] = LoaderOf.batch
     /\ sizes # <<>> => sizes[Len(sizes)] \in 1..LoaderOf.batch
     /\ FoldFunction(LAMBDA a, b : a + b, 0, sizes) = k
     /\ ~Odd(Im, Lb, LoaderOf.n) => [i \in 1..Len(R.ts) |-> R.ts[i].s[1]] = sizes
\* Labels come back from their one-hot rows.
OneHot == Loaded /\ R.ok =>
  LET all == FlattenSeq([i \in 1..Len(R.ts) |-> RVec(R.ts[i].d)])
  IN \A i \in 1..Wanted(Lb, LoaderOf.n) : \A d \in 0..9 : (all[10 * (i - 1) + d + 1] = One) = (Lb[8 + i] = d)
\* Well-formed files are loaded.
Accepts == Loaded /\ Focus = "good" /\ LoaderOf.n <= Announced(Im) /\ LoaderOf.n <= Announced(Lb) => R.ok
\* A file cut short of what is asked for is refused.
Refuses == Loaded /\ Focus = "bad" /\ (Im = Missing \/ Lb = Missing \/ Len(Im) < 16 + 2 * (IF LoaderOf.n = -1 THEN 2 ELSE LoaderOf.n) \/ Len(Lb) < 8 + (IF LoaderOf.n = -1 THEN 2 ELSE LoaderOf.n)) => ~R.ok
Emit == Len(hist) = 5 => PrintT("PROGRAM " \o ToJson(hist))
=============================================================================

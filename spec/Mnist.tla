--------------------------------- MODULE Mnist ---------------------------------
(***************************************************************************)
(* What the MNIST loader returns for two files, given as byte sequences    *)
(* (<<-1>> stands for a file that does not exist).                         *)
(*                                                                         *)
(*   image file  2051 count rows cols  pixels, row-major, image by image   *)
(*   label file  2049 count            one byte per label                  *)
(*                                                                         *)
(* The header fields are big-endian 32-bit numbers.                        *)
(***************************************************************************)
EXTENDS Approx
LOCAL INSTANCE Integers
Missing == <<-1>>
\* The header field that starts after k bytes; -1 where it does not fit a signed 32-bit number.
Field(b, k) == IF b[k + 1] > 127 THEN -1 ELSE b[k + 1] * 16777216 + b[k + 2] * 65536 + b[k + 3] * 256 + b[k + 4]
HasHeader(b, magic, size) == b # Missing /\ Len(b) >= size /\ Field(b, 0) = magic /\ \A k \in 1..((size \div 4) - 1) : Field(b, 4 * k) >= 0
ImgHead(b) == HasHeader(b, 2051, 16)
LblHead(b) == HasHeader(b, 2049, 8)
Announced(b) == Field(b, 4)
Rows(b) == Field(b, 8)
Cols(b) == Field(b, 12)
Pixels(b) == Rows(b) * Cols(b)
\* How many samples are asked for: the limit, or what the file announces.
Wanted(b, n) == IF n = -1 THEN Announced(b) ELSE n
\* The file holds its first k images (labels).
HoldsImgs(b, k) == k = 0 \/ (Pixels(b) > 0 /\ (Len(b) - 16) \div Pixels(b) >= k)
HoldsLbls(b, k) == Len(b) - 8 >= k
GoodLbls(b, k) == \A i \in 1..k : b[8 + i] <= 9

\* The loader has to refuse.
MustFail(im, lb, n) ==
  \/ ~ImgHead(im) \/ ~LblHead(lb)
  \/ ~HoldsImgs(im, Wanted(im, n)) \/ ~HoldsLbls(lb, Wanted(lb, n))
  \/ ~GoodLbls(lb, Wanted(lb, n))
\* Files nobody promises anything about, other than that only what is in them is returned: they announce another number of samples
\* than they hold, fewer than asked for, or different numbers of images and labels.
Odd(im, lb, n) ==
  \/ Len(lb) # 8 + Announced(lb) \/ n > Announced(im) \/ n > Announced(lb) \/ Announced(im) # Announced(lb)
  \/ Announced(im) > 0 /\ (Pixels(im) = 0 \/ (Len(im) - 16) \div Pixels(im) # Announced(im) \/ (Len(im) - 16) % Pixels(im) # 0)

NBatches(k, batch) == (k + batch - 1) \div batch
BatchSize(k, batch, i) == IF i * batch <= k THEN batch ELSE k - (i - 1) * batch
\* y is the i-th batch of the k first images, of the labels
ImgBatchOk(ty, im, k, batch, i, y) ==
  LET m == BatchSize(k, batch, i)
      p == Pixels(im)
      from == 16 + (i - 1) * batch * p
  IN /\ y.s = <<m, 1, Rows(im), Cols(im)>>
     /\ LET d == RVec(y.d)
        IN /\ Len(d) = m * p
           /\ \A j \in 1..(m * p) : LET c == RDiv(RInt(im[from + j]), RInt(255)) IN Close(ty, d[j], c, c, 1) /\ RLe(d[j], One)
LblBatchOk(lb, k, batch, i, y) ==
  LET m == BatchSize(k, batch, i)
      from == 8 + (i - 1) * batch
  IN /\ y.s = <<m, 10>>
     /\ RVec(y.d) = [j \in 1..(10 * m) |-> IF lb[from + ((j - 1) \div 10) + 1] = (j - 1) % 10 THEN RInt(1) ELSE RInt(0)]
LoadOk(ty, im, lb, batch, n, r) ==
  IF ~r.ok THEN MustFail(im, lb, n) \/ Odd(im, lb, n)
  ELSE /\ ~MustFail(im, lb, n)
       /\ Len(r.xs) = NBatches(Wanted(im, n), batch)
       /\ Len(r.ts) = NBatches(Wanted(lb, n), batch)
       /\ \A i \in 1..Len(r.xs) : ImgBatchOk(ty, im, Wanted(im, n), batch, i, r.xs[i])
       /\ \A i \in 1..Len(r.ts) : LblBatchOk(lb, Wanted(lb, n), batch, i, r.ts[i])

(***************************************************************************)
(* Rendering of the first image of a tensor of rank 2 or more              *)
(***************************************************************************)
Chars == <<" ", ".", ":", "-", "=", "+", "*", "#", "%", "@">>
\* The level of a pixel in [0, 1]: tenths, rounded down; either neighbour when the rounding of the multiplication decides.
LevelOk(v, c) == \E k \in 1..10 : /\ Chars[k] = c
                                  /\ LET ten == RMul(v, RInt(10)) IN
                                     /\ RLe(RSub(RInt(k - 1), RLit("1e-5")), ten)
                                     /\ (k = 10 \/ RLt(ten, RAdd(RInt(k), RLit("1e-5"))))
ArtOk(t, rows) ==
  LET h == t.s[Len(t.s) - 1]
      w == t.s[Len(t.s)]
      d == RVec(t.d)
  IN /\ Len(rows) = h
     /\ \A i \in 1..h : Len(rows[i]) = w /\ \A j \in 1..w : LevelOk(d[(i - 1) * w + j], rows[i][j])
=============================================================================

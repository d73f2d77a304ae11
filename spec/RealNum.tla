------------------------------- MODULE RealNum -------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.                                  *)
(*                                                                         *)
(* The definitions below say what every operator means in terms of the     *)
(* standard module Reals.  TLC cannot evaluate reals, so each operator is   *)
(* overridden by the method of the same name in java/RealNum.java, which    *)
(* computes with 36 significant decimal digits (a double has 16, a float    *)
(* 7).  Besides the reals there are the three IEEE specials "nan", "inf"    *)
(* and "-inf", because the implementation may return them; RIsNum separates *)
(* them.  Nothing else in the specification is overridden.                  *)
(***************************************************************************)
EXTENDS Reals, Sequences

LOCAL Inv(x) == CHOOSE y \in Real : x * y = 1
LOCAL Fact[n \in Nat] == IF n = 0 THEN 1 ELSE n * Fact[n - 1]
LOCAL PSum(x, k) == LET S[n \in Nat] == IF n = 0 THEN 1 ELSE S[n - 1] + (x ^ n) * Inv(Fact[n]) IN S[k]

\* The real number n.
RInt(n) == n
\* The real number (or IEEE special) written by the string s: decimal, hexadecimal floating point (C's %a), nan, inf, -inf.
RLit(s) == CHOOSE r : TRUE
\* The sequence of numbers written in s, separated by single spaces.
RVec(s) == CHOOSE q \in Seq(Real) : TRUE
\* A string that denotes r (inverse of RLit).
RStr(r) == CHOOSE s \in STRING : RLit(s) = r
\* TRUE for reals, FALSE for nan, inf, -inf.
\* r as C++ streams print it: at most six significant digits, shortest of decimal and scientific (C's %g).
RText(r) == CHOOSE s \in STRING : TRUE
RIsNum(r) == r \in Real
RIsNaN(r) == r = RLit("nan")

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b
RNeg(a) == 0 - a
RAbs(a) == IF a < 0 THEN 0 - a ELSE a
RLt(a, b) == a < b
RLe(a, b) == a <= b
RMax(a, b) == IF a < b THEN b ELSE a
RMin(a, b) == IF b < a THEN b ELSE a
RSqrt(a) == CHOOSE r \in Real : r >= 0 /\ r * r = a
\* exp x = lim_n sum_{i<=n} x^i / i!
RExp(x) == CHOOSE e \in Real : \A eps \in Real : eps > 0 =>
              \E n \in Nat : \A k \in Nat : k >= n => (PSum(x, k) - e < eps /\ e - PSum(x, k) < eps)
RLn(x) == CHOOSE y \in Real : RExp(y) = x

RECURSIVE RSum(_)
RSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + RSum(Tail(q))
\* sum_i a[i] * b[i]
RDot(a, b) == RSum([i \in 1..Len(a) |-> a[i] * b[i]])
\* sum_i |a[i]| and sum_i |a[i] * b[i]|: magnitudes used to scale rounding tolerances
RSumAbs(a) == RSum([i \in 1..Len(a) |-> RAbs(a[i])])
RDotAbs(a, b) == RSum([i \in 1..Len(a) |-> RAbs(a[i] * b[i])])
\* The closest IEEE value of type ty ("f" = float, "d" = double) to r.
RRound(ty, r) == CHOOSE x \in Real : TRUE
=============================================================================

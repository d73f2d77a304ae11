------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* What it means that an observed floating-point number agrees with the    *)
(* real number the specification asks for.                                 *)
(*                                                                         *)
(* Element types: "f" (float), "d" (double) and "x" (exact: used when the  *)
(* specification runs on its own under TLC).  A rounding bound has the     *)
(* form  2 (n + 8) u m : u is the unit roundoff of the type, n the number  *)
(* of terms that were combined, and m the same computation carried out on  *)
(* absolute values.  It holds for every order of evaluation, so that the   *)
(* specification does not prescribe one.                                   *)
(***************************************************************************)
EXTENDS RealNum, Naturals, Sequences, TLC

Zero == RInt(0)
One == RInt(1)
Two == RInt(2)
Unit(ty) == CASE ty = "f" -> RLit("0x1p-24") [] ty = "d" -> RLit("0x1p-53") [] OTHER -> RLit("1e-30")
Tiny(ty) == CASE ty = "f" -> RLit("0x1p-146") [] ty = "d" -> RLit("0x1p-1071") [] OTHER -> RLit("1e-60")
\* The smallest normal number: below it a result may vanish.
MinNormal(ty) == CASE ty = "f" -> RLit("0x1p-126") [] ty = "d" -> RLit("0x1p-1022") [] OTHER -> RLit("1e-60")
Huge(ty) == CASE ty = "f" -> RLit("0x1.fffff0p+127") [] ty = "d" -> RLit("0x1.fffffffffff00p+1023") [] OTHER -> RLit("1e300000")
Inf == RLit("inf")
NInf == RLit("-inf")

\* |obs - v| <= tol; a result beyond the range of the type may be infinite.
Within(ty, obs, v, tol) ==
  IF RIsNum(v)
    THEN \/ RIsNum(obs) /\ RLe(RAbs(RSub(obs, v)), tol)
         \/ obs = Inf /\ RLe(Huge(ty), RAdd(v, tol))
         \/ obs = NInf /\ RLe(RAdd(Huge(ty), v), tol)
    ELSE obs = v

Tol(ty, m, n) == IF n = 0 THEN Zero ELSE RAdd(RMul(RMul(RInt(2 * (n + 8)), Unit(ty)), m), RMul(RInt(n), Tiny(ty)))

\* The observed number is v up to the rounding of n operations of magnitude m; n = 0: exactly v.
Close(ty, obs, v, m, n) == IF n = 0 THEN obs = v ELSE Within(ty, obs, v, Tol(ty, m, n))

(***************************************************************************)
(* Balls [c, r]: the set of reals within r of c.  B... computes with them  *)
(* and adds one rounding error per operation, which bounds the error of    *)
(* quantities that are carried over many steps without being observed.    *)
(***************************************************************************)
Ball(c, r) == [c |-> c, r |-> r]
BExact(c) == Ball(c, Zero)
BRnd(ty, c, r) == Ball(c, RAdd(r, RAdd(RMul(Unit(ty), RAdd(RAbs(c), r)), Tiny(ty))))
BAdd(ty, a, b) == BRnd(ty, RAdd(a.c, b.c), RAdd(a.r, b.r))
BSub(ty, a, b) == BRnd(ty, RSub(a.c, b.c), RAdd(a.r, b.r))
BMul(ty, a, b) == BRnd(ty, RMul(a.c, b.c), RAdd(RAdd(RMul(RAbs(a.c), b.r), RMul(RAbs(b.c), a.r)), RMul(a.r, b.r)))
\* From the ends of an interval (rounding is monotone, so that every end has its own error).
BHull(ty, lo, hi) ==
  LET Err(x) == RAdd(RMul(RMul(Two, Unit(ty)), RAbs(x)), Tiny(ty))
      l == RSub(lo, Err(lo))
      h == RAdd(hi, Err(hi))
  IN Ball(RDiv(RAdd(l, h), Two), RDiv(RSub(h, l), Two))
\* a + e for a ball a of numbers that are not negative and a number e: never (much) below e.
BAbove(ty, a, e) == BHull(ty, RAdd(RMax(Zero, RSub(a.c, a.r)), e), RAdd(RAdd(a.c, a.r), e))
\* a / b for a ball b of positive numbers; if its radius reaches zero nothing is known about the quotient.
BDiv(ty, a, b) ==
  LET q == RDiv(a.c, b.c)
      lo == RSub(b.c, b.r)
  IN IF RLe(lo, Zero) THEN Ball(IF RIsNum(q) THEN q ELSE Zero, RLit("1e5000")) ELSE BRnd(ty, q, RDiv(RAdd(a.r, RMul(RAbs(q), b.r)), lo))
BMax0(ty, a) == LET lo == RMax(Zero, RSub(a.c, a.r)) IN BHull(ty, lo, RMax(Zero, RAdd(a.c, a.r)))
BSqrt(ty, a) == LET lo == RMax(Zero, RSub(a.c, a.r)) IN BHull(ty, RSqrt(lo), RSqrt(RMax(Zero, RAdd(a.c, a.r))))
\* The observed number lies in the ball (with a factor for other orders of evaluation).
InBall(ty, obs, b) == Within(ty, obs, b.c, RMul(RInt(8), b.r))

\* Wrapped, a condition is evaluated as a value (TLC would otherwise unfold it like an action, one stack frame per element).
Holds(c) == TRUE = c
=============================================================================

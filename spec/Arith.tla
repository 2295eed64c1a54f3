------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Exact integer arithmetic on the coordinates that appear in traces.      *)
(*                                                                         *)
(* TLC integers have 32 bits, so a coordinate is written in one of two     *)
(* forms, selected once per trace by the constant Wide:                    *)
(*   Wide = FALSE  a plain TLC integer with absolute value <= 16000, which *)
(*                 keeps every cross product below 2^31;                   *)
(*   Wide = TRUE   a limb number <<s, l1, ..., lk>> with sign s in -1..1   *)
(*                 and k little-endian base-10^4 limbs, lk # 0, zero being *)
(*                 <<0>>.  The form is canonical, so "=" is equality.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Wide

Base == 10000

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

---------------------------------------------------------------------------
(* Magnitudes: little-endian limb sequences without leading zero limbs.    *)

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0
           THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

MaxI(i, j) == IF i > j THEN i ELSE j

RECURSIVE CmpFrom(_, _, _)
CmpFrom(m, n, i) == IF i = 0 THEN 0
                    ELSE IF m[i] # n[i] THEN Sgn(m[i] - n[i])
                    ELSE CmpFrom(m, n, i - 1)

MagCmp(m, n) == IF Len(m) # Len(n) THEN Sgn(Len(m) - Len(n))
                ELSE CmpFrom(m, n, Len(m))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(m, n, i, carry) ==
  IF i > MaxI(Len(m), Len(n))
  THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET t == Limb(m, i) + Limb(n, i) + carry
       IN <<t % Base>> \o AddFrom(m, n, i + 1, t \div Base)

MagAdd(m, n) == AddFrom(m, n, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(m, n, i, borrow) ==          \* requires m >= n
  IF i > Len(m) THEN <<>>
  ELSE LET t == m[i] - Limb(n, i) - borrow
       IN <<t % Base>> \o SubFrom(m, n, i + 1, IF t < 0 THEN 1 ELSE 0)

MagSub(m, n) == Trim(SubFrom(m, n, 1, 0))

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(m, d, i, carry) ==
  IF i > Len(m)
  THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET t == m[i] * d + carry
       IN <<t % Base>> \o ScaleFrom(m, d, i + 1, t \div Base)

RECURSIVE MulFrom(_, _, _)
MulFrom(m, n, i) ==
  IF i > Len(n) THEN <<>>
  ELSE MagAdd(Trim(ScaleFrom(m, n[i], 1, 0)),
              LET r == MulFrom(m, n, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)

MagMul(m, n) == IF m = <<>> \/ n = <<>> THEN <<>> ELSE Trim(MulFrom(m, n, 1))

---------------------------------------------------------------------------
(* Signed limb numbers.                                                    *)

Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Mag(a) == Tail(a)

LNeg(a) == <<-a[1]>> \o Tail(a)

LAdd(a, b) ==
  IF a[1] = 0 THEN b
  ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(Mag(a), Mag(b)))
  ELSE LET c == MagCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN Mk(a[1], MagSub(Mag(a), Mag(b)))
          ELSE Mk(b[1], MagSub(Mag(b), Mag(a)))

LSub(a, b) == LAdd(a, LNeg(b))
LMul(a, b) == Mk(a[1] * b[1], MagMul(Mag(a), Mag(b)))

LCmp(a, b) ==
  IF a[1] # b[1] THEN Sgn(a[1] - b[1])
  ELSE IF a[1] >= 0 THEN MagCmp(Mag(a), Mag(b))
  ELSE MagCmp(Mag(b), Mag(a))

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)

ToLimbs(n) == IF n >= 0 THEN Mk(1, MagOf(n)) ELSE Mk(-1, MagOf(-n))

---------------------------------------------------------------------------
(* The two operations every geometric predicate below is made of.          *)

Lt(a, b) == IF Wide THEN LCmp(a, b) < 0 ELSE a < b
Le(a, b) == IF Wide THEN LCmp(a, b) <= 0 ELSE a <= b

\* +1: r is to the left of the directed line p -> q, -1: right, 0: on it
Orient(p, q, r) ==
  IF Wide
  THEN LCmp(LMul(LSub(q[1], p[1]), LSub(r[2], p[2])),
            LMul(LSub(q[2], p[2]), LSub(r[1], p[1])))
  ELSE LET d == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
       IN IF d > 0 THEN 1 ELSE IF d < 0 THEN -1 ELSE 0

\* a coordinate as a limb number, whatever its form
Limbs(a) == IF Wide THEN a ELSE ToLimbs(a)
=============================================================================

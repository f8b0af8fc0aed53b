------------------------------ MODULE RatPure ------------------------------
(***************************************************************************)
(* Exact rational arithmetic, defined from scratch.                        *)
(*                                                                         *)
(* TLC's integers have 32 bits, so rationals are built on naturals written *)
(* as little-endian sequences of base-2^15 limbs (no trailing zero limb;   *)
(* zero is << >>).  A rational is <<s, n, d>> with sign s in {-1, 0, 1},   *)
(* numerator n and denominator d (limb sequences), coprime, d > 0; zero is *)
(* <<0, <<>>, <<1>>>>.  The representation is canonical, so "=" is         *)
(* equality of rationals.  NaN == <<2, <<>>, <<>>>> is the image of every  *)
(* non-finite floating-point number; it absorbs every operation and makes  *)
(* every comparison false, so verdicts stay total on corrupted output.     *)
(*                                                                         *)
(* This module is the definition; Rationals.tla re-exports it under the    *)
(* names used by the specification, and java/Rationals.java evaluates the  *)
(* same operators with BigInteger.  RatCheck.tla compares the two.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768

----------------------------------------------------------------------------
(* Naturals *)
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN <<>>
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NFromInt(_)
NFromInt(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o NFromInt(k \div Base)

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN <<t % Base>> \o NAddFrom(a, b, i + 1, t \div Base)
NAdd(a, b) == NAddFrom(a, b, 1, 0)

RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, c) ==                       \* requires a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - c
       IN IF t < 0 THEN <<t + Base>> \o NSubFrom(a, b, i + 1, 1)
                   ELSE <<t>> \o NSubFrom(a, b, i + 1, 0)
NSub(a, b) == NTrim(NSubFrom(a, b, 1, 0))

RECURSIVE NScaleFrom(_, _, _, _)
NScaleFrom(a, k, i, c) ==                     \* a * k, 0 <= k < Base
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * k + c
       IN <<t % Base>> \o NScaleFrom(a, k, i + 1, t \div Base)
NScale(a, k) == IF k = 0 THEN <<>> ELSE NScaleFrom(a, k, 1, 0)
NShift(a) == IF a = <<>> THEN <<>> ELSE <<0>> \o a   \* a * Base

RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE NAdd(NScale(a, b[i]), NShift(NMulFrom(a, b, i + 1)))
NMul(a, b) == NMulFrom(a, b, 1)

(* Largest q in lo..hi with q*b <= r, by bisection. *)
RECURSIVE NDigit(_, _, _, _)
NDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NScale(b, mid), r) <= 0 THEN NDigit(r, b, mid, hi)
                                          ELSE NDigit(r, b, lo, mid - 1)
RECURSIVE NDivFrom(_, _, _, _)
NDivFrom(a, b, i, r) ==      \* <<quotient limbs of a[1..i] with carry-in r, remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET r1 == NTrim(<<a[i]>> \o r)
           q  == IF NCmp(r1, b) < 0 THEN 0 ELSE NDigit(r1, b, 1, Base - 1)
           nx == NDivFrom(a, b, i - 1, NSub(r1, NScale(b, q)))
       IN <<Append(nx[1], q), nx[2]>>
NDivMod(a, b) == LET t == NDivFrom(a, b, Len(a), <<>>) IN <<NTrim(t[1]), t[2]>>

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])

----------------------------------------------------------------------------
(* Rationals *)
NaN  == <<2, <<>>, <<>>>>
Zero == <<0, <<>>, <<1>>>>
One  == <<1, <<1>>, <<1>>>>
Fin(a) == a[1] # 2

Norm(s, n, d) ==                    \* canonical form of s * n/d, d > 0
  IF n = <<>> THEN Zero
  ELSE LET g == NGcd(n, d) IN <<s, NDivMod(n, g)[1], NDivMod(d, g)[1]>>

RECURSIVE IntGcd(_, _)
IntGcd(a, b) == IF b = 0 THEN a ELSE IntGcd(b, a % b)
AbsInt(i) == IF i < 0 THEN -i ELSE i
Frac(i, j) ==                       \* the rational i/j of two TLC integers, j # 0
  LET s == IF i = 0 THEN 0 ELSE IF (i < 0) = (j < 0) THEN 1 ELSE -1
      g == IntGcd(AbsInt(i), AbsInt(j))
  IN IF i = 0 THEN Zero
     ELSE <<s, NFromInt(AbsInt(i) \div g), NFromInt(AbsInt(j) \div g)>>

Neg(a) == IF ~Fin(a) THEN NaN ELSE <<-a[1], a[2], a[3]>>
Abs(a) == IF ~Fin(a) THEN NaN ELSE <<AbsInt(a[1]), a[2], a[3]>>

Add(a, b) ==
  IF ~Fin(a) \/ ~Fin(b) THEN NaN
  ELSE LET x == NMul(a[2], b[3])
           y == NMul(b[2], a[3])
           d == NMul(a[3], b[3])
           c == NCmp(x, y)
       IN IF a[1] = 0 THEN b
          ELSE IF b[1] = 0 THEN a
          ELSE IF a[1] = b[1] THEN Norm(a[1], NAdd(x, y), d)
          ELSE IF c = 0 THEN Zero
          ELSE IF c > 0 THEN Norm(a[1], NSub(x, y), d)
          ELSE Norm(b[1], NSub(y, x), d)
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF ~Fin(a) \/ ~Fin(b) THEN NaN
             ELSE Norm(a[1] * b[1], NMul(a[2], b[2]), NMul(a[3], b[3]))
Div(a, b) == IF ~Fin(a) \/ ~Fin(b) \/ b[1] = 0 THEN NaN
             ELSE Norm(a[1] * b[1], NMul(a[2], b[3]), NMul(a[3], b[2]))
Le(a, b) == /\ Fin(a) /\ Fin(b)
            /\ LET d == Sub(b, a) IN d[1] >= 0
Lt(a, b) == Le(a, b) /\ a # b
Max(a, b) == IF ~Fin(a) \/ ~Fin(b) THEN NaN ELSE IF Le(a, b) THEN b ELSE a

(* Least power of two that is at least |a|; zero for zero. *)
RECURSIVE PowUp(_, _)
PowUp(a, p) == IF ~Le(a, p) THEN PowUp(a, Mul(p, Frac(2, 1)))
               ELSE IF Le(a, Mul(p, Frac(1, 2))) THEN PowUp(a, Mul(p, Frac(1, 2))) ELSE p
Up(a) == IF ~Fin(a) THEN NaN ELSE IF a = Zero THEN Zero ELSE PowUp(Abs(a), One)
=============================================================================

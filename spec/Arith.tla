-------------------------------- MODULE Arith -------------------------------
(* Integer arithmetic that stays inside TLC's 32-bit integers.  ApaArith     *)
(* proves the bounds of the scaled product for all operands.                 *)
EXTENDS Integers

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* floor(a / b) for any integer a and b > 0 is TLA+'s a \div b.            *)
DivNear(a, b) == (2 * a + b) \div (2 * b)

Pow2(n) == 2^n

(* floor(a * b / 2^s) for 0 <= a, b < 2^30 and 15 <= s <= 45 without        *)
(* leaving 32 bits, provided the result itself fits; error at most 3 below. *)
MulShr(a, b, s) ==
  LET ah == a \div 32768   al == a % 32768
      bh == b \div 32768   bl == b % 32768
      top == IF s <= 30 THEN ah * bh * Pow2(Max2(0, 30 - s)) ELSE (ah * bh) \div Pow2(Max2(0, s - 30))
      mid == ((ah * bl) \div Pow2(s - 15)) + ((al * bh) \div Pow2(s - 15))
      low == IF s > 30 THEN 0 ELSE (al * bl) \div Pow2(s)
  IN top + mid + low
(* Signed version.                                                          *)
MulShrS(a, b, s) == Sign(a) * Sign(b) * MulShr(Abs(a), Abs(b), s)
=============================================================================

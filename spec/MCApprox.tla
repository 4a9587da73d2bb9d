------------------------------ MODULE MCApprox ------------------------------
(* Design model: walks every 16-bit phase of the specified fixed-point sine *)
(* (accuracy, monotonicity, oddness) and cross-checks the oracles' tables   *)
(* against each other.                                                      *)
EXTENDS Approx
VARIABLES z, prev
mv == <<last, z, prev>>
MCInit == ApproxInit /\ z = -32768 /\ prev = FixSin(-32768, 4)
MCNext == z < 32767 /\ z' = z + 1 /\ prev' = Max2(prev, FixSin(z, 4)) /\ UNCHANGED last
MCSpec == MCInit /\ [][MCNext]_mv
\* z represents z * pi/65536 rad = z * 2^7 of 2^24 turns / 4... quarter at 32768
Exact(p) == IF p < 0 THEN 0 - (Sin24((0 - p) * 128) \div 512) ELSE Sin24(p * 128) \div 512
Accurate == Abs(FixSin(z, 4) - Exact(z)) <= 5
Monotone == FixSin(z, 4) >= prev - 2     \* prev: highest value so far
OddUpTo3 == z > -32768 => Abs(FixSin(z, 4) + FixSin(0 - z, 4)) <= 3
InI16 == \A d \in 0..4 : FixSin(z, d) \in -32768..32767
Saturates == FixSin(z, 9) = FixSin(z, 4)
\* degree 0 is the line pi/2 * z, saturated
Line == LET t == SatHalf(102944, z) IN FixSin(z, 0) = t /\ (Abs(z) <= 20000 => Abs(t * 64 - (z * 10053) \div 100) <= 128)

Ks == { i * 32771 : i \in 0..511 }
RectSym == \A k \in Ks : /\ Abs(RectAt(k).v - RectAt(One \div 2 - k).v) <= 40 \/ k > One \div 2
                         /\ RectAt(k).v = 0 - RectAt(One - k).v
Xs == { i * 6101 : i \in 1..210 }
SiOdd == \A x \in Xs : SiOf(0 - x) = 0 - SiOf(x)
\* x * si'(x) = sin x, by central differences of width 1/64
SiSlope == \A x \in Xs : x > 2048 =>
   LET d == SiOf(x + 1024) - SiOf(x - 1024)         \* over 2/64
   IN Abs(MulShrS(x, d * 32, 16) - SinOf(x)) <= 20000
HypSquare == \A x \in { i * 2621 : i \in 0..100 } :   \* |x| <= 4
   LET c == CoshOf(x) s == SinhOf(x)
   IN Abs(MulShrS(c - s, c + s, 16) - 65536) <= 65 + c \div 64
TanQuot == \A k \in { i * 10433 : i \in 0..100 } :
   LET x == k \div 16 IN Abs(MulShrS(TanOf(k), CosOf(x), 24) - SinOf(x)) <= 1500
SinCos == \A x \in Xs : Abs(MulShrS(SinOf(x), SinOf(x), 24) + MulShrS(CosOf(x), CosOf(x), 24) - One) <= 1500
ASSUME RectSym
ASSUME SiOdd /\ SiSlope
ASSUME HypSquare
ASSUME TanQuot
ASSUME SinCos
=============================================================================

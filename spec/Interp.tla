------------------------------ MODULE Interp ------------------------------
(* Interpolation laws shared by slices, delay-line taps and oscillators.    *)
EXTENDS Base

(* Position = fl + fr/4096 (fr is the floor when the position is finer and  *)
(* then ex = 0).  Values are recorded at scale 4096, cells at scale 1.      *)
LerpBlend(a, b, fr) == a * (4096 - fr) + b * fr
LerpOk(a, b, fr, ex, v) ==
  IF ex = 1 THEN IsExact(v, LerpBlend(a, b, fr))
            ELSE Near(v, LerpBlend(a, b, fr), Abs(a - b) + 4)

(* Close to a sample: a fraction of p/2^k between a and b, the value at      *)
(* scale 2^k (k may exceed the integers here only when a = 0).              *)
FineOk(a, b, p, k, v) ==
  IF a = 0 THEN Near(v, b * p, 0)
  ELSE LET w == a * (Pow2(k) - p) + b * p
       IN Near(v, w, (Abs(a) * Pow2(k)) \div 1048576 + Abs(b * p) \div 1048576)

(* d: sequence of w samples at positions 0..w-1, evaluated at p/S.  With     *)
(* L = (w-1)!:  L * S^(w-1) * y = sum_i d_i (-1)^(w-1-i) C(w-1,i) prod_{j#i} (p - jS) *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Binom(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
RECURSIVE ProdExc(_, _, _, _)
ProdExc(p, S, i, j) ==
  IF j < 0 THEN 1 ELSE (IF j = i THEN 1 ELSE p - j * S) * ProdExc(p, S, i, j - 1)
RECURSIVE LagSum(_, _, _, _)
LagSum(d, p, S, i) ==
  IF i < 0 THEN 0
  ELSE LET w == Len(d)
           sg == IF (w - 1 - i) % 2 = 0 THEN 1 ELSE -1
       IN d[i + 1] * sg * Binom(w - 1, i) * ProdExc(p, S, i, w - 1) + LagSum(d, p, S, i - 1)
LagDen(w, S) == Fact(w - 1) * S^(w - 1)
\* value at scale 256, rounded down
LagAt(d, p, S) ==
  LET D == LagDen(Len(d), S)
      q == LagSum(d, p, S, Len(d) - 1)
  IN (q \div D) * 256 + ((q % D) * 256) \div D
LagTol == 4
(* Wide windows: samples whose second differences are constant lie on a      *)
(* quadratic, which every interpolant through three or more of them equals.  *)
Quadratic(d) == \A i \in 1..(Len(d) - 3) :
  d[i + 3] - 3 * d[i + 2] + 3 * d[i + 1] - d[i] = 0
QuadAt(d, p, S) ==
  LET d1 == d[2] - d[1]   d2 == d[3] - 2 * d[2] + d[1]
  IN d[1] * 256 + (d1 * p * 256) \div S + (d2 * p * (p - S) * 128) \div (S * S)
QuadTol(d) == LagTol + Len(d) \div 8
(* The basis polynomials: y[i] is the value at p/S, between two samples, of  *)
(* the interpolant of a single 1 at sample i-1, as sign, 14-bit mantissa and *)
(* exponent.  Neighbours satisfy                                            *)
(*   y[i+1] (i) (p - iS) = - y[i] (w-i) (p - (i-1)S),                        *)
(* and the interpolant of any samples is the sum weighted with them (z: the  *)
(* same values at scale 2^16, which add up to 1; v: the interpolant of d).    *)
ShiftR(x, n) == IF n > 29 THEN 0 ELSE x \div Pow2(n)
Ratio(w, p, S, y, i) ==
  LET fine == w * w * S > 131072
      m(j) == IF fine THEN y[j][2] \div 64 ELSE y[j][2]
      A == m(i + 1) * i * Abs(p - i * S)
      C == m(i) * (w - i) * Abs(p - (i - 1) * S)
      d == y[i + 1][3] - y[i][3]
      a == IF d >= 0 THEN A ELSE ShiftR(A, 0 - d)
      c == IF d >= 0 THEN ShiftR(C, d) ELSE C
  IN /\ y[i][2] > 0 /\ y[i + 1][2] > 0
     /\ Abs(a - c) <= 2 + a \div (IF fine THEN 40 ELSE 512)
     /\ (y[i + 1][1] = y[i][1]) <=> ((p < i * S) # (p < (i - 1) * S))
RECURSIVE Weighted(_, _, _), WeightedAbs(_, _, _)
Weighted(d, z, i) == IF i = 0 THEN 0 ELSE d[i] * z[i] + Weighted(d, z, i - 1)
WeightedAbs(d, z, i) == IF i = 0 THEN 0 ELSE Abs(d[i] * z[i]) + WeightedAbs(d, z, i - 1)
BasisOk(w, p, S, y) == /\ Len(y) = w /\ p % S # 0 /\ w * w * S <= 8388608
                       /\ \A i \in 1..(w - 1) : Ratio(w, p, S, y, i)
MixOk(d, z, v) == /\ Len(d) = Len(z)
                  /\ Abs(Weighted([i \in 1..Len(z) |-> 1], z, Len(z)) - 65536) <= 40 + Len(z)
                  /\ Near(v, Weighted(d, z, Len(d)), 40 + Len(d) * 8 + WeightedAbs(d, z, Len(d)) \div 4096)
LagNear(d, p, S, v) ==
  IF p % S = 0 /\ p >= 0 /\ p < S * Len(d)
    THEN Near(v, d[p \div S + 1] * 256, 0)
    ELSE IF Len(d) > 8
    THEN Quadratic(d) /\ Near(v, QuadAt(d, p, S), QuadTol(d))
    ELSE Near(v, LagAt(d, p, S), LagTol)
=============================================================================

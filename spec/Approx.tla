------------------------------- MODULE Approx -------------------------------
(* Fixed-point sine (C28), periodic float approximations and table lookups  *)
(* (C31), sinc and sine integral (C33), hyperbolic and tangent              *)
(* approximations (C34).  Values at scale 2^24 and arguments at 2^16 unless *)
(* noted.  State: the last sine-integral reading, so that increments        *)
(* between consecutive readings are specified too.                          *)
EXTENDS Base, Tables, Tables2

VARIABLE last        \* [x, v] of the last sine-integral reading
avars == <<last>>
ApproxInit == last = [x |-> 0, v |-> 0]
One == 16777216
\* tolerances at 2^24
Tol1e3 == 16777
Tol2e3 == 33554

\* ---- fixed-point sine ----
B == <<102944, 0 - 42334, 5223, 0 - 307, 10>>
\* floor(p * z / 2^15) for the inner products (they fit in 32 bits)
Q15(p, z) == (p * z) \div 32768
RECURSIVE Horner(_, _, _)
Horner(r, d, z) == IF d = 0 THEN r ELSE Horner(Q15(Q15(r + B[d + 1], z), z), d - 1, z)
\* floor(p * z / 2^16) of the saturated product
SatHalf(p, z) == LET a == p * (z \div 256)
                     b == p * (z % 256)
                     t == (a + (b \div 256)) \div 256
                 IN Clamp(t, 0 - 32768, 32767)
FixSin(z, d) == SatHalf(Horner(0, Min2(d, 4), z) + B[1], z)
FixBlock(d, z0, v, u) == /\ \A i \in 1..Len(v) : v[i] = FixSin(z0 + i - 1, d) /\ u[i] = v[i]
                         /\ UNCHANGED avars

\* ---- sine of a float argument ----
\* argument at 2^16 to turns at 2^24: 2^29/(2 pi) = 85445659.4
Turns(x) == MulShrS(x, 85445659, 21) % One
SinQ(t) == SinTab[t \div 16384 + 1] + ((SinTab[t \div 16384 + 2] - SinTab[t \div 16384 + 1]) * ((t % 16384) \div 64)) \div 256
Sin24(p) ==
  LET k == p \div 4194304
      t == p % 4194304
      q(y) == IF y >= 4194304 THEN One ELSE SinQ(y)
  IN IF k = 0 THEN q(t) ELSE IF k = 1 THEN q(4194304 - t) ELSE IF k = 2 THEN 0 - q(t) ELSE 0 - q(4194304 - t)
SinOf(x) == Sin24(Turns(x))
CosOf(x) == Sin24((Turns(x) + 4194304) % One)
InDomain(x) == IsFinite(x) /\ Abs(x[1]) <= 6553600

ReadSin(x, v) == (InDomain(x) => Near(v, SinOf(x[1]), Tol1e3)) /\ UNCHANGED avars
ReadCos(x, v) == (InDomain(x) => Near(v, CosOf(x[1]), Tol1e3)) /\ UNCHANGED avars
\* total: any finite argument gives a value in [-1,1] (within 1e-4)
InRange(v) == IsFinite(v) /\ Abs(v[1]) <= One + 1678
ReadRange(v) == InRange(v) /\ UNCHANGED avars
\* table sine at x and at x + 2 pi k
ReadPeriod(v, w) == /\ InRange(v) /\ InRange(w)
                    /\ Abs(v[1] - w[1]) <= 1678 /\ UNCHANGED avars

\* ---- band-limited rectangle at k / 2^24 ----
\* position in the quarter table at 2^12: q / 2^24 * 4 * 5074
Cells == 5074
Quarter(q) ==
  LET z == MulShr(q * 8, 20296, 15)
      i == z \div 4096
      f == z % 4096
      a == BlRect[i + 1]
      b == BlRect[Min2(i + 1, Cells) + 1]
  IN [v |-> a + ((b - a) * f) \div 4096, t |-> 64 + Abs(b - a) \div 64]
RectAt(k) ==
  IF k <= 0 \/ k >= One THEN [v |-> 0, t |-> 0]
  ELSE IF k <= One \div 4 THEN Quarter(k)
  ELSE IF k <= One \div 2 THEN Quarter(One \div 2 - k)
  ELSE LET r == IF k <= 3 * (One \div 4) THEN Quarter(k - One \div 2) ELSE Quarter(One - k)
       IN [v |-> 0 - r.v, t |-> r.t]
\* x is recorded exactly, or lies outside (0, 1)
ReadRect(x, v) ==
  /\ IF x[2] = 0 THEN LET r == RectAt(x[1]) IN Near(v, r.v, r.t)
     ELSE x[2] \in {1, 3, 4, 5} /\ ((x[1] <= 0 /\ x[2] # 3) \/ x[1] >= One \/ x[2] = 3) => v[1] = 0 /\ v[2] \in {0, 1}
  /\ UNCHANGED avars

\* ---- sinc and sine integral, |x| <= 20 ----
ReadSinc(x, v, w) ==      \* sinc(x), sinc(-x)
  /\ IF x = <<0, 0>> THEN v = <<One, 0>> /\ w = v
     ELSE /\ IsFinite(v) /\ IsFinite(w)
          /\ Abs(MulShrS(x[1], v[1], 16) - SinOf(x[1])) <= Tol2e3
          /\ Abs(MulShrS(x[1], w[1], 16) - SinOf(x[1])) <= Tol2e3
  /\ UNCHANGED avars
SiPos(n) == LET i == n \div 1024
                f == n % 1024
            IN IF f = 0 THEN SiTab[i + 1] ELSE SiTab[i + 1] + ((SiTab[i + 2] - SiTab[i + 1]) * f) \div 1024
SiOf(n) == IF n < 0 THEN 0 - SiPos(0 - n) ELSE SiPos(n)
ReadSi(x, v, w) ==        \* si(x), si(-x)
  /\ IF x = <<0, 0>> THEN v[1] = 0 /\ w[1] = 0
     ELSE /\ Near(v, SiOf(x[1]), Tol2e3) /\ Near(w, 0 - SiOf(x[1]), Tol2e3)
          /\ Abs(v[1] + w[1]) <= Tol2e3
          /\ Abs((v[1] - last.v) - (SiOf(x[1]) - SiOf(last.x))) <= Tol2e3 + Tol1e3
  /\ last' = [x |-> x[1], v |-> v[1]]

\* ---- hyperbolics and tangent ----
\* x at 2^16 (|x| <= 8), v at 2^16; grid 1/32
Grid(t, n) == LET i == n \div 2048
                  f == n % 2048
              IN IF f = 0 THEN t[i + 1] ELSE t[i + 1] + ((t[i + 2] - t[i + 1]) \div 4096) * (f * 2) + (((t[i + 2] - t[i + 1]) % 4096) * f) \div 2048
CoshOf(n) == Grid(CoshTab, Abs(n))
SinhOf(n) == Sign(n) * Grid(SinhTab, Abs(n))
ReadCosh(x, v) == Near(v, CoshOf(x[1]), 8 + CoshOf(x[1]) \div 400) /\ UNCHANGED avars
ReadSinh(x, v) == Near(v, SinhOf(x[1]), 8 + CoshOf(x[1]) \div 400) /\ UNCHANGED avars
\* tanh is the quotient of its quadratic exponentials: x / (1 + x^2/2);
\* k = x * 4096
ReadTanh(k, v) == /\ IsFinite(v)
                  /\ LET w == 131072 + ((k * k) \div 256)
                     IN Abs(MulShrS(v[1], w, 16) - k * 8192) <= 80 + Abs(k) \div 8
                  /\ UNCHANGED avars
\* tangent, k = x * 2^20, |x| <= 1
TanOf(k) == LET i == k \div 1024
                f == k % 1024
            IN IF f = 0 THEN TanX[i + 1] ELSE TanX[i + 1] + ((TanX[i + 2] - TanX[i + 1]) * f) \div 1024
ReadTan(k, v) == Near(v, Sign(k) * TanOf(Abs(k)), IF Abs(k) <= 524288 THEN 20 ELSE 17616) /\ UNCHANGED avars
=============================================================================

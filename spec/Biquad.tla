------------------------------- MODULE Biquad ------------------------------
(* Biquad filters: the recursion (C11), and the Butterworth designs         *)
(* (C12, C13).                                                              *)
(* Recursion: coefficients in 1/64, samples at scale 2^16.                  *)
(* Designs: coefficients at scale 2^24 and the bilinear variable            *)
(* s = (1 - z^-1)/(1 + z^-1), in which                                      *)
(*    H = (n2 s^2 + n1 s + n0) / (d2 s^2 + d1 s + d0).                      *)
EXTENDS Base, Tables

CONSTANT Filters
VARIABLES co,    \* [Filters -> <<b0, b1, b2, a1, a2>>] in 1/64
          z,     \* [Filters -> <<z1, z2>>]
          ex,    \* arithmetic exact so far
          memo   \* what has been designed for which parameters
bvars == <<co, z, ex, memo>>

Zero5 == <<0, 0, 0, 0, 0>>
BiquadInit == /\ co = [f \in Filters |-> Zero5] /\ z = [f \in Filters |-> <<0, 0>>]
              /\ ex = TRUE /\ memo = <<>>

New(f) == /\ co' = [co EXCEPT ![f] = Zero5] /\ z' = [z EXCEPT ![f] = <<0, 0>>]
          /\ UNCHANGED <<ex, memo>>
Set(f, c) == co' = [co EXCEPT ![f] = c] /\ UNCHANGED <<z, ex, memo>>

Mul(a, k) == MulShrS(a, k * 65536, 22)     \* a * k / 64
Fits(v) == Abs(v) < 16777216
ExMul(a, k) == ((a % 64) * (k % 64)) % 64 = 0 /\ Fits(Mul(a, k))

(* The contribution of each sample is weighted by the coefficients in force *)
(* when it is processed: state holds already weighted sums.                 *)
StepOf(c, s, x) ==
  LET y == Mul(x, c[1]) + s[1]
      t1 == Mul(x, c[2]) + s[2]
      p1 == Mul(y, c[4])
      t2 == Mul(x, c[3])
      p2 == Mul(y, c[5])
  IN [y |-> y, z |-> <<t1 - p1, t2 - p2>>,
      e |-> /\ ExMul(x, c[1]) /\ ExMul(x, c[2]) /\ ExMul(x, c[3])
            /\ ExMul(y, c[4]) /\ ExMul(y, c[5])
            /\ Fits(y) /\ Fits(t1) /\ Fits(t1 - p1) /\ Fits(t2 - p2)]
Process(f, x, v) ==
  LET r == StepOf(co[f], z[f], x)
  IN /\ IF ex /\ r.e THEN IsExact(v, r.y) ELSE Near(v, r.y, 64)
     /\ z' = [z EXCEPT ![f] = r.z]
     /\ ex' = (ex /\ r.e)
     /\ UNCHANGED <<co, memo>>

\* n samples of the constant x, where the filter comes back to its state
\* after four of them (silence, a settled filter, an undamped resonance):
\* vs the first outputs, df later outputs unlike the one four before
RECURSIVE Walk(_, _, _, _)
Walk(c, s, x, k) == IF k = 0 THEN [z |-> s, ys |-> <<>>, e |-> TRUE]
                    ELSE LET w == Walk(c, s, x, k - 1)
                             r == StepOf(c, w.z, x)
                         IN [z |-> r.z, ys |-> Append(w.ys, r.y), e |-> w.e /\ r.e]
Cycles(c, s, x) == LET w == Walk(c, s, x, 4) IN w.z = s /\ w.e
CycleRun(f, x, n, vs, df) ==
  /\ n >= 1 /\ ex /\ df = 0 /\ Len(vs) = Min2(n, 4)
  /\ Cycles(co[f], z[f], x)
  /\ LET w == Walk(co[f], z[f], x, 4)
     IN TRUE = (\A j \in 1..Len(vs) : IsExact(vs[j], w.ys[j]))
  /\ z' = [z EXCEPT ![f] = Walk(co[f], z[f], x, n % 4).z]
  /\ UNCHANGED <<co, ex, memo>>

(* ---- designs ---- *)
\* tan(pi * u / 1024) at scale 2^20, u = j + r/4096
TanK(j, r) == TanTab[j + 1] + MulShr(TanTab[j + 2] - TanTab[j + 1], r * 64, 18)

One == 16777216
N0(c) == c[1] + c[2] + c[3]
N1(c) == 2 * (c[1] - c[3])
N2(c) == c[1] - c[2] + c[3]
D0(c) == One + c[4] + c[5]
D1(c) == 2 * (One - c[5])
D2(c) == One - c[4] + c[5]

FiniteTo(c, m) == \A i \in 1..5 : IsFinite(c[i]) /\ Abs(c[i][1]) <= m * One
Ints(c) == [i \in 1..5 |-> c[i][1]]

\* strict stability: both poles inside the unit circle (Jury conditions)
Stable(c) == D0(c) > 0 /\ D1(c) > 0 /\ D2(c) > 0

\* equal up to single precision of the coefficients and 1/512 relative
Close(a, b) == Abs(a - b) <= 48 + Max2(Abs(a), Abs(b)) \div 512
Tiny(a) == Abs(a) <= 32

\* corner and Q of a quadratic q2 s^2 + q1 s + q0: q0 = K^2 q2, q1 Q = K q2
Corner(q0, q2, K) == Close(q0, MulShrS(MulShrS(q2, K, 20), K, 20))
\* (Q at scale 2^10; the error of q1 is magnified by Q)
QOk(q1, q2, K, Q) ==
  LET w == MulShrS(q2, K, 25)
  IN Abs(MulShrS(q1, Q, 15) - w) <= 6 + Q \div 512 + Abs(w) \div 512
\* the shelf's other side: q1 = sqrt(2 g) K q2 within the crate's square
\* root approximation (7 %, so 15 % of the square)
ShelfSide(q1, q2, K, g) ==
  q1 >= 0 /\ q2 >= 0 /\
  LET a == MulShr(q1, q1, 28)
      k == MulShr(q2, K, 20)
      w == MulShr(MulShr(k, k, 28), 2 * g * 256, 16)
  IN Abs(a - w) <= 8 + w \div 7

\* g in 1/256, negative for cuts
DesignOk(type, K, Q, g, c) ==
  LET n0 == N0(c) n1 == N1(c) n2 == N2(c)
      d0 == D0(c) d1 == D1(c) d2 == D2(c)
      ag == Abs(g)
      G(x) == MulShrS(x, ag * 1024, 18)  \* |g| * x
  IN Stable(c) /\
     CASE type = "lowpass" ->
          Close(n0, d0) /\ Tiny(n1) /\ Tiny(n2) /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "highpass" ->
          Tiny(n0) /\ Tiny(n1) /\ Close(n2, d2) /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "allpass" ->
          Close(n0, d0) /\ Close(n1, 0 - d1) /\ Close(n2, d2) /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "notch" ->
          Close(n0, d0) /\ Tiny(n1) /\ Close(n2, d2) /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "bell" /\ g >= 0 ->
          /\ Close(n0, d0) /\ Close(n2, d2) /\ Close(n1, G(d1))
          /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "bell" /\ g < 0 ->
          /\ Close(n0, d0) /\ Close(n2, d2) /\ Close(d1, G(n1))
          /\ Corner(n0, n2, K) /\ QOk(n1, n2, K, Q)
       [] type = "shelf" /\ g >= 0 ->
          /\ Close(n0, G(d0)) /\ Close(n2, d2) /\ ShelfSide(n1, n2, K, ag)
          /\ Corner(d0, d2, K) /\ QOk(d1, d2, K, Q)
       [] type = "shelf" /\ g < 0 ->
          /\ Close(d0, G(n0)) /\ Close(n2, d2) /\ ShelfSide(d1, d2, K, ag)
          /\ Corner(n0, n2, K) /\ QOk(n1, n2, K, Q)

\* p: the full parameter tuple; v: coefficients at scale 2^24, raw: their
\* bit patterns.  Same parameters, same coefficients, whatever was before.
Remember(p, raw) ==
  /\ \A i \in 1..Len(memo) : memo[i][1] = p => memo[i][2] = raw
  /\ memo' = Append(memo, <<p, raw>>)
\* accurate range: fc between sr/500 and sr/4
Design(type, j, r, Q, g, p, v, raw) ==
  /\ FiniteTo(v, 7)
  /\ j < 256 => DesignOk(type, TanK(j, r), Q, g, Ints(v))
  /\ Remember(p, raw)
  /\ UNCHANGED <<co, z, ex>>
DesignStable(p, v, raw) ==
  /\ FiniteTo(v, 12) /\ Stable(Ints(v)) /\ Remember(p, raw)
  /\ UNCHANGED <<co, z, ex>>
\* a burst was processed, then silence: maxima of successive stretches, each
\* several times the longest time constant, at scale 2^16
Decay(m) ==
  /\ \A i \in 1..Len(m) : IsFinite(m[i])
  /\ \A i \in 1..(Len(m) - 1) : m[i + 1][1] * 2 <= m[i][1] + 64
  /\ UNCHANGED bvars
=============================================================================

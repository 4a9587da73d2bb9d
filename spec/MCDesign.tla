------------------------------ MODULE MCDesign ------------------------------
(* The design predicate accepts the ideal coefficients (bilinear transform  *)
(* of the analogue prototype, computed here from K, Q and g alone) on a     *)
(* grid of the parameter space, they are stable, and it rejects designs for *)
(* a corner, Q or gain a few per cent off and each single damaged           *)
(* coefficient.                                                             *)
EXTENDS Biquad
CONSTANTS Js, Qs, Gs
VARIABLES t, j, q, g
S == 67108864     \* 2^26
\* floor(2^n a / b) for a, b >= 0
RECURSIVE LD(_, _, _, _)
LD(qq, r, b, n) == IF n = 0 THEN qq
                  ELSE LET r2 == 2 * r IN LD(2 * qq + (IF r2 >= b THEN 1 ELSE 0), IF r2 >= b THEN r2 - b ELSE r2, b, n - 1)
ShlDiv(a, b, n) == LD(a \div b, a % b, b, n)
Ratio(a, b) == Sign(a) * ShlDiv(Abs(a), b, 24)
RECURSIVE RootStep(_, _, _)
RootStep(x, r, bit) == IF bit = 0 THEN r
  ELSE RootStep(x, IF (r + bit) * (r + bit) <= x THEN r + bit ELSE r, bit \div 2)
Sqrt28(x) == RootStep(x, 0, 16384) \* floor(sqrt(x)), x < 2^30

\* K at 2^26, Q at 2^10, g in 1/256
Ideal(ty, K, Q, gg) ==
  LET k2 == MulShr(K, K, 26)
      kq == ShlDiv(K, Q, 10)
      ag == Abs(gg)
      m(x) == MulShr(x, ag * 1024, 18)
      rt == MulShr(K, Sqrt28(2 * ag * 65536) * 8, 15)     \* sqrt(2g) K
      N(b0, b1, b2, a1, a2, a0) == <<Ratio(b0, a0), Ratio(b1, a0), Ratio(b2, a0), Ratio(a1, a0), Ratio(a2, a0)>>
      p == S + kq + k2
      c1 == 2 * (k2 - S)
      a2 == S - kq + k2
  IN CASE ty = "lowpass" -> N(k2, 2 * k2, k2, c1, a2, p)
       [] ty = "highpass" -> N(S, 0 - 2 * S, S, c1, a2, p)
       [] ty = "allpass" -> N(a2, c1, p, c1, a2, p)
       [] ty = "notch" -> N(S + k2, c1, S + k2, c1, a2, p)
       [] ty = "bell" /\ gg >= 0 -> N(S + m(kq) + k2, c1, S - m(kq) + k2, c1, a2, p)
       [] ty = "bell" /\ gg < 0 -> N(p, c1, a2, c1, S - m(kq) + k2, S + m(kq) + k2)
       [] ty = "shelf" /\ gg >= 0 -> N(S + rt + m(k2), 2 * (m(k2) - S), S - rt + m(k2), c1, a2, p)
       [] ty = "shelf" /\ gg < 0 -> N(p, c1, a2, 2 * (m(k2) - S), S - rt + m(k2), S + rt + m(k2))
Types == {"lowpass", "highpass", "allpass", "notch", "bell", "shelf"}
GSet == {-1024, -512, -256, -64, 0, 32, 64, 128, 256, 1024}
MCInit == /\ BiquadInit
          /\ t \in Types /\ j \in Js /\ q \in Qs
          /\ g \in IF t \in {"bell", "shelf"} THEN GSet ELSE {256}
MCNext == UNCHANGED <<co, z, ex, memo, t, j, q, g>>
MCSpec == MCInit /\ [][MCNext]_<<co, z, ex, memo, t, j, q, g>>
K == TanK(j, 0)
C == Ideal(t, K * 64, q, g)
AcceptsIdeal == DesignOk(t, K, q, g, C)
IdealStable == Stable(C)
Up(x, n) == x + x \div n
RejectsCorner == ~DesignOk(t, K, q, g, Ideal(t, Up(K, 32) * 64, q, g))
RejectsQ == ~DesignOk(t, K, q, g, Ideal(t, K * 64, Up(q, 32), g))
\* a gain argument the wrong way round or off; (g = 1 and the cut/boost
\* distinction coincide only in the pole/zero placement)
RejectsGain == t \in {"bell", "shelf"} /\ g # 0 =>
  /\ ~DesignOk(t, K, q, g, Ideal(t, K * 64, q, Up(g, IF j < 10 THEN 8 ELSE 32)))
  /\ Abs(g) # 256 => ~DesignOk(t, K, q, g, Ideal(t, K * 64, q, 0 - g))
RejectsDamage == \A i \in 1..5 :
  /\ ~DesignOk(t, K, q, g, [C EXCEPT ![i] = C[i] + 2097152])
  /\ ~DesignOk(t, K, q, g, [C EXCEPT ![i] = C[i] - 2097152])
\* other filter types are told apart (with gain 0 a bell is a notch, a shelf a high-pass)
RejectsType == \A u \in Types \ ({t, "bell", "shelf"} \cup CASE t = "bell" /\ g = 0 -> {"notch"} [] t = "shelf" /\ g = 0 -> {"highpass"} [] OTHER -> {}) : ~DesignOk(u, K, q, g, C)
=============================================================================

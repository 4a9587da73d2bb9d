-------------------------------- MODULE Level -------------------------------
(* Levels: panning and crossfading (C22), decibels (C26), clippers (C27),   *)
(* free interpolation (C29), sample/time conversion (C30).                  *)
(* Words are <<hi, lo>>; split floats are <<sign, m, e>> = sign * m * 2^e   *)
(* with 2^23 <= m < 2^24.  State: the last decibel reading, for             *)
(* monotonicity over histories.                                             *)
EXTENDS Base, Tables

VARIABLE ref          \* <<>> or <<word, decibels>> of the last reading
lvars == <<ref>>
LevelInit == ref = <<>>

\* ---- words ----
Neg(w) == w[1] >= 32768
Mag(w) == <<w[1] % 32768, w[2]>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ExpOf(w) == (w[1] \div 128) % 256
MantOf(w) == (w[1] % 128) * 65536 + w[2]
IsNaNW(w) == ExpOf(w) = 255 /\ MantOf(w) # 0
IsInfW(w) == Mag(w) = <<32640, 0>>
IsZeroW(w) == Mag(w) = <<0, 0>>
IsNormal(w) == ExpOf(w) \in 1..254
OneW == <<16256, 0>>
AboveOne(w) == ~IsNaNW(w) /\ Lt(OneW, Mag(w))
Same(v, w) == v = w \/ (IsZeroW(v) /\ IsZeroW(w))

\* ---- panning: amount n/2^24, samples and results n/2^15 ----
Unit == 8388608
Full == 16777216
Share(n, left) == IF left THEN Full - n ELSE Full + n           \* twice the share, at 2^24
TooLeft(a) == (a[2] \in {0, 1} /\ a[1] < 0 - Full) \/ a[2] = 4 \/ (a[2] = 5 /\ a[1] < 0)
TooRight(a) == (a[2] \in {0, 1} /\ a[1] > Full) \/ a[2] = 3 \/ (a[2] = 5 /\ a[1] > 0)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, r, b) == IF b = 0 THEN r
                  ELSE LET t == r + b IN Isqrt(x, IF t * t <= x THEN t ELSE r, b \div 2)
Root(x) == Isqrt(x, 0, 16384)                                    \* floor(sqrt(x)), x < 2^30
PanTol(s) == 3 + Abs(s) \div 1048576
Linear(n, s, left) == MulShrS(s, Share(n, left), 25)
\* sqrt(share), at 2^14
Power(n, left) == Root(Share(n, left) * 8)
MonoOk(n, s, v) == /\ Near(v[1], Linear(n, s, TRUE), PanTol(s)) /\ Near(v[2], Linear(n, s, FALSE), PanTol(s))
                   /\ Abs(v[1][1] + v[2][1] - s) <= 2 + Abs(s) \div 2097152
PowerOk(n, s, v, left) ==
  IF Share(n, left) = 0 THEN Near(v, 0, 1)
  ELSE IF Share(n, left) = 2 * Full THEN Near(v, s, Abs(s) \div 1048576)
  ELSE LET x == MulShrS(2 * s, Power(n, left), 15)
       IN Near(v, x, 4 + (Abs(x) * 7) \div 100 + Abs(s) \div 8192)
StereoOk(n, s, v) == PowerOk(n, s[1], v[1], TRUE) /\ PowerOk(n, s[2], v[2], FALSE)
FadeOk(n, s, v) == Near(v, Linear(n, s[1], TRUE) + Linear(n, s[2], FALSE), PanTol(s[1]) + PanTol(s[2]))
\* checked: k, e, v; unchecked: u (recorded when the amount is valid)
Pan(a, k, e, ok, same) ==
  /\ IF TooLeft(a) THEN k = "err" /\ e = "TooLeft"
     ELSE IF TooRight(a) THEN k = "err" /\ e = "TooRight"
     ELSE k = "ok" /\ ok /\ same
  /\ UNCHANGED lvars
Mono(a, s, k, e, v, u) == Pan(a, k, e, TRUE = MonoOk(a[1], s, u), v = u)
Stereo(a, s, k, e, v, u) == Pan(a, k, e, TRUE = StereoOk(a[1], s, u), v = u)
Crossfade(a, s, v) == (TRUE = FadeOk(a[1], s, v)) /\ UNCHANGED lvars

\* samples that are not finite: 0 finite, 2 NaN, 3 and 4 the infinities.  A
\* share above zero keeps the class of its sample; nothing is said about the
\* silenced channel of an infinite sample.
ClassOf(v) == IF v[2] \in {0, 1, 5} THEN 0 ELSE v[2]
KeepsClass(n, s, v, left) == Share(n, left) = 0 \/ ClassOf(v) = ClassOf(s)
SumClass(a, b) == IF a = 2 \/ b = 2 \/ {a, b} = {3, 4} THEN 2 ELSE Max2(a, b)
FadeClass(n, s, t, v) == LET l == Share(n, TRUE) = 0
                             r == Share(n, FALSE) = 0
                         IN \/ l /\ ClassOf(s) # 0
                            \/ r /\ ClassOf(t) # 0
                            \/ ClassOf(v) = SumClass(ClassOf(s), ClassOf(t))
PanClass(f, a, s, t, k, e, v, u) ==
  IF f = "x" THEN FadeClass(a[1], s, t, v[1]) /\ UNCHANGED lvars
  ELSE Pan(a, k, e, KeepsClass(a[1], s, u[1], TRUE) /\ KeepsClass(a[1], IF f = "m" THEN s ELSE t, u[2], FALSE), v = u)

\* ---- decibels, at 2^16 ----
\* log2 of a positive normal word, at 2^20
Log2Frac(m) == LET i == m \div 131072
                   f == m % 131072
               IN Log2Tab[i + 1] + (((Log2Tab[i + 2] - Log2Tab[i + 1]) * (f \div 16)) \div 8192)
Log2W(w) == (ExpOf(w) - 127) * 1048576 + Log2Frac(MantOf(w))
\* 20 log10(2) * 2^16 = 394566.04
DbOf(w) == MulShrS(Log2W(w), 394566, 20)
DbTol == 1311                                                    \* 0.02 dB
\* the result: outcome k, error e, value v
Classified(w, k, e, v, strict) ==
  IF IsNaNW(w) \/ (Neg(w) /\ ~IsZeroW(w)) THEN k = "err" /\ e = "Nan"
  ELSE IF IsZeroW(w) THEN IF strict THEN k = "err" /\ e = "Infinite" ELSE k = "ok" /\ v[2] = 4
  ELSE k = "ok" /\ ~IsNaN(v) /\ (IsNormal(w) => Near(v, DbOf(w), DbTol))
Grows(w, v) == (ref # <<>> /\ IsNormal(w) /\ ~Neg(w)) =>
                 /\ (Lt(ref[1][1], w) => v[1] >= ref[1][2] - 8)
                 /\ (Lt(w, ref[1][1]) => v[1] <= ref[1][2] + 8)
ToDb(w, pk, pe, pv, sk, se, sv, u) ==
  /\ Classified(w, pk, pe, pv, FALSE)
  /\ Classified(w, sk, se, sv, TRUE)
  /\ (IsNormal(w) /\ ~Neg(w)) => Near(u, DbOf(w), DbTol) /\ Grows(w, pv)
  /\ ref' = IF IsNormal(w) /\ ~Neg(w) THEN << <<w, pv[1]>> >> ELSE ref
\* there and back: within 1 %
RelOne(w, v) == LET de == ExpOf(v) - ExpOf(w)
                    a == Unit + MantOf(w)
                    b == Unit + MantOf(v)
                    d == IF de = 0 THEN b - a ELSE IF de = 1 THEN 2 * b - a ELSE IF de = -1 THEN b \div 2 - a ELSE Unit
                IN ~Neg(v) /\ Abs(d) <= a \div 100
RoundTrip(w, v) == IsNormal(w) /\ ~Neg(w) /\ IsNormal(v) /\ (TRUE = RelOne(w, v)) /\ UNCHANGED lvars
\* decibels d to a ratio: its decibels are d within 1 % of ratio
ToRatio(d, v) ==
  /\ IF d[2] = 4 THEN IsZeroW(v)
     ELSE IF d = <<0, 0>> THEN v = OneW
     ELSE /\ ~Neg(v) /\ ~IsNaNW(v)
          /\ (IsFinite(d) /\ Abs(d[1]) <= 45875200) => IsNormal(v) /\ Abs(DbOf(v) - d[1]) <= 5700
  /\ UNCHANGED lvars

\* ---- clippers ----
Digital(w, v) ==
  /\ (IF AboveOne(w) THEN v = (IF Neg(w) THEN <<49024, 0>> ELSE OneW) ELSE Same(v, w))
  /\ UNCHANGED lvars
Shaped(w, v) ==
  /\ (IF AboveOne(w) THEN v = (IF Neg(w) THEN <<49024, 0>> ELSE OneW) ELSE ~IsNaNW(v) /\ ~AboveOne(v))
  /\ UNCHANGED lvars

\* ---- free interpolation: ends n/2^8, amount n/2^12, result n/2^20 ----
LerpErr(a, b, t) == IF IsNaNW(a) \/ IsNaNW(b) THEN "InputNaN"
                    ELSE IF IsInfW(a) \/ IsInfW(b) THEN "InputInfinite"
                    ELSE IF (Neg(t) /\ ~IsZeroW(t)) \/ AboveOne(t) THEN "InterpolationRange"
                    ELSE ""
\* words of ends, amount, results; encodings on the grid when they lie on it
LerpEv(a, b, t, k, e, v, u, an, bn, tn, vn) ==
  /\ LET x == LerpErr(a, b, t)
     IN IF x # "" THEN k = "err" /\ e = x
        ELSE /\ k = "ok"
             /\ Same(u, v)
             /\ (IsZeroW(t) => Same(v, a))
             /\ (t = OneW => Same(v, b))
             /\ (an[2] \in {0, 1} /\ bn[2] \in {0, 1} /\ Max2(Abs(an[1]), Abs(bn[1])) <= 131072) =>
                  LET y == an[1] * (4096 - tn[1]) + bn[1] * tn[1]
                      m == Max2(Abs(an[1]), Abs(bn[1]))
                      \* what the rounding onto the grid may have moved
                      g == (IF an[2] = 0 /\ bn[2] = 0 THEN 0 ELSE 4096)
                           + (IF tn[2] = 0 THEN 0 ELSE 1 + Abs(an[1] - bn[1]) \div 2)
                  IN Near(vn, y, 2 + m \div 512 + g)
  /\ UNCHANGED lvars

\* ---- samples and seconds ----
\* product of split floats, normalised; exact to 4 units of 2^-23
MulF(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN <<1, 0, 0>>
              ELSE LET p == MulShr(a[2], b[2], 23)
                       e == a[3] + b[3] + 23
                   IN IF p < 16777216 THEN <<a[1] * b[1], p, e>> ELSE <<a[1] * b[1], p \div 2, e + 1>>
EqF(a, b, tol) == IF a[2] = 0 \/ b[2] = 0 THEN a[2] = b[2]
                  ELSE /\ a[1] = b[1]
                       /\ LET de == a[3] - b[3]
                          IN IF de = 0 THEN Abs(a[2] - b[2]) <= tol
                             ELSE IF de = 1 THEN Abs(2 * (a[2] - Unit) + (16777216 - b[2])) <= 2 * tol
                             ELSE IF de = -1 THEN Abs(2 * (b[2] - Unit) + (16777216 - a[2])) <= 2 * tol
                             ELSE FALSE
Thousand == <<1, 16384000, -14>>
TimeTol == 12
Times(x, sr, sec, ms, smp, msmp, back1, back2, back3, back4) ==
  /\ EqF(MulF(sec, sr), x, TimeTol)
  /\ EqF(ms, MulF(sec, Thousand), TimeTol)
  /\ EqF(smp, MulF(x, sr), TimeTol)
  /\ EqF(MulF(msmp, Thousand), smp, TimeTol)
  /\ \A b \in {back1, back2, back3, back4} : EqF(b, x, TimeTol)
  /\ UNCHANGED lvars
=============================================================================

-------------------------------- MODULE Adsr --------------------------------
(* The ADSR envelope: gate machine (C14), range and direction (C15),        *)
(* durations and curves (C16), release level (C17).  Each aspect constrains *)
(* the same transitions; Aspects selects which ones are checked, the state  *)
(* always follows what was observed.                                        *)
(* Levels at scale 2^24 as <<n, c>>, progress at 2^28 as an interval        *)
(* [plo, phi], times in 1/65536 s, slopes as fractions <<a, b>>.            *)
EXTENDS Base
CONSTANT Aspects
VARIABLES st, r
avars == <<st, r>>

One == 16777216
P28 == 268435456
ZeroL == <<0, 0>>
OneL == <<One, 0>>

\* ---- increments ----
RECURSIVE LD(_, _, _, _)
LD(q, m, b, n) == IF n = 0 THEN q
                 ELSE LET m2 == 2 * m IN LD(2 * q + (IF m2 >= b THEN 1 ELSE 0), IF m2 >= b THEN m2 - b ELSE m2, b, n - 1)
ShlDiv(a, b, n) == LD(a \div b, a % b, b, n)      \* floor(2^n a / b)

\* stage of m/65536 seconds at sr: progress per tick
Inc(m, sr) ==
  LET n == Min2(MulShr(m * 128, sr, 15), 512 * sr)    \* ticks, at scale 256
  IN IF n <= 256 THEN [lo |-> P28, hi |-> P28]
     ELSE LET q == ShlDiv(1073741824, n, 6)
          \* float accumulation: at most half an ulp, 2^-25, per tick
          IN [lo |-> q - q \div n - 10, hi |-> Min2(P28, q + q \div n + 10)]
Times(n, x) == IF n > 536870912 \div x THEN 536870912 ELSE n * x
Cap(p) == Min2(p, 536870912)

ClampL(v) == IF v[2] = 3 THEN OneL ELSE IF v[2] = 4 THEN ZeroL
             ELSE IF v[1] >= One THEN OneL ELSE IF v[1] < 0 THEN ZeroL ELSE v
ClampS(s) == IF s[1] > 20 * s[2] THEN <<20, 1>> ELSE IF 20 * s[1] < s[2] THEN <<1, 20>> ELSE s

NoEnv == [sr |-> 1, a |-> Inc(0, 1), d |-> Inc(0, 1), r |-> Inc(0, 1), sus |-> ZeroL, sl |-> <<1, 1>>,
          plo |-> 0, phi |-> 0, lev |-> ZeroL, last |-> ZeroL, quiet |-> FALSE, fresh |-> FALSE]
AdsrInit == st = "none" /\ r = NoEnv

Has(x) == x \in Aspects

New(ma, md, u, mr, sl, sr, s) ==
  /\ Has("gate") => s = "idle"
  /\ st' = s
  /\ r' = [NoEnv EXCEPT !.sr = sr, !.a = Inc(ma, sr), !.d = Inc(md, sr), !.r = Inc(mr, sr),
                        !.sus = ClampL(u), !.sl = sl]

\* ---- parameters ----
Param(s, nr) == /\ Has("gate") => s = st
                /\ st' = s /\ r' = [nr EXCEPT !.quiet = FALSE]
SetA(m, s) == Param(s, [r EXCEPT !.a = Inc(m, r.sr)])
SetD(m, s) == Param(s, [r EXCEPT !.d = Inc(m, r.sr)])
SetR(m, s) == Param(s, [r EXCEPT !.r = Inc(m, r.sr)])
SetSus(u, s) == Param(s, [r EXCEPT !.sus = ClampL(u)])
SetSlope(sl, s) == Param(s, [r EXCEPT !.sl = ClampS(sl)])
SetSr(sr, s) == Param(s, [r EXCEPT !.sr = sr])

\* ---- gates ----
On(s) ==
  /\ Has("gate") => s = "attack"
  /\ st' = s
  /\ r' = [r EXCEPT !.quiet = FALSE, !.fresh = FALSE, !.plo = 0,
                    !.phi = IF st \in {"idle", "attack"} THEN 0 ELSE P28]
\* where it does nothing, the outputs that follow are those without it (same)
Off(s, same) ==
  /\ Has("gate") /\ st \in {"idle", "release"} => same
  /\ Has("gate") => s = (IF st \in {"attack", "decay", "sustain"} THEN "release" ELSE st)
  /\ st' = s
  /\ r' = IF s = "release" /\ st # "release"
          THEN [r EXCEPT !.lev = r.last, !.plo = 0, !.phi = 0, !.quiet = FALSE, !.fresh = TRUE]
          ELSE r
Reset(s) ==
  /\ Has("gate") => s = "idle"
  /\ st' = s
  /\ r' = [r EXCEPT !.last = ZeroL, !.quiet = FALSE, !.fresh = FALSE]

\* ---- shape ----
RECURSIVE PowLo(_, _), PowHi(_, _)
PowLo(x, n) == IF n = 0 THEN 16384 ELSE (PowLo(x, n - 1) * x) \div 16384
PowHi(x, n) == IF n = 0 THEN 16384 ELSE Min2(32768, (PowHi(x, n - 1) * x) \div 16384 + 1)
QLo(p) == Max2(0, ((Min2(p, P28) \div 16384) * 8) \div 9 - 1)
QHi(p) == Min2(16384, p \div 16384 + 1)
\* x in [xl, xh] (scale 2^14) can be q^(m/n) for a q in [8/9 plo, phi]
PowOk(xl, xh, m, n, plo, phi) ==
  /\ PowLo(Clamp(xl, 0, 16384), n) <= PowHi(QHi(phi), m)
  /\ PowHi(Clamp(xh, 0, 16384), n) >= PowLo(QLo(plo), m)
Sane(v) == IsFinite(v) /\ v[1] >= 0 - 262144 /\ v[1] <= One + 262144
Tol == 165                              \* 0.01 at scale 2^14
RiseOk(v, plo, phi) ==
  Sane(v) /\ PowOk(v[1] \div 1024 - Tol, v[1] \div 1024 + 1 + Tol, r.sl[2], r.sl[1], plo, phi)
\* v = lo + d * (1 - q^s); tol at the scale of levels
FallOk(v, lo, d, tol, plo, phi) ==
  /\ Sane(v)
  /\ LET drop == d - (v[1] - lo)
         c(x) == ShlDiv(Clamp(x, 0, d), d, 14)
     IN PowOk(c(drop - tol) - 2, c(drop + tol) + 2, r.sl[1], r.sl[2], plo, phi)

Slack == 256
NotLate(p, inc) == p - p \div 100 - inc.lo < P28 + Slack
NotEarly(p, inc) == p + p \div 100 + inc.hi >= P28 - Slack

\* ---- n ticks: first output f, last output v, largest rise and fall      *)
\* between neighbours up and dn, maximum and minimum of all but the last    *)
\* mx and mn; the stage may have changed only at the last tick, to s        *)
LE(a, b) == IsFinite(a) /\ IsFinite(b) /\ a[1] <= b[1]
InRange(v) == LE(ZeroL, v) /\ LE(v, OneL)
All(P(_), n, f, v, mx, mn) == P(v) /\ P(f) /\ (n > 1 => P(mx) /\ P(mn))
Mono == <<16777, 0>>

GateTick(n, f, v, mx, mn, s) ==
  CASE st = "idle" -> s = "idle"
    [] st = "sustain" -> s = "sustain"
    [] st = "attack" -> /\ s = IF v = OneL THEN "decay" ELSE "attack"
                        /\ n > 1 => f # OneL /\ mx # OneL
    [] st = "decay" -> /\ s = IF v = r.sus THEN "sustain" ELSE "decay"
                       /\ n > 1 => f # r.sus /\ mn # r.sus
    [] st = "release" -> /\ s = IF v = ZeroL THEN "idle" ELSE "release"
                         /\ n > 1 => f # ZeroL /\ mn # ZeroL
    [] OTHER -> FALSE
RangeTick(n, f, v, up, dn, mx, mn, s) ==
  /\ All(InRange, n, f, v, mx, mn)
  /\ CASE st = "idle" -> LET P(x) == x = ZeroL IN All(P, n, f, v, mx, mn)
       [] st = "sustain" -> LET P(x) == x = r.sus IN All(P, n, f, v, mx, mn)
       [] st = "attack" -> LE(dn, Mono) /\ (r.quiet => f[1] >= r.last[1] - Mono[1])
       [] st = "decay" -> LET P(x) == LE(r.sus, x)
                          IN All(P, n, f, v, mx, mn) /\ LE(up, Mono) /\ (r.quiet => f[1] <= r.last[1] + Mono[1])
       [] st = "release" -> LET P(x) == LE(x, r.lev)
                            IN All(P, n, f, v, mx, mn) /\ LE(up, Mono) /\ (r.quiet => f[1] <= r.last[1] + Mono[1])
       [] OTHER -> TRUE
ShapeTick(n, f, v, s) ==
  LET inc == IF st = "attack" THEN r.a ELSE IF st = "decay" THEN r.d ELSE r.r
      lo(k) == Cap(r.plo + Times(k, inc.lo))
      hi(k) == Cap(r.phi + Times(k, inc.hi))
      same == s = st
      tiny == CASE st = "decay" -> One - r.sus[1] < 335544
                [] st = "release" -> r.lev[1] < 1677722
                [] OTHER -> FALSE
      Shape(x, k) ==
        CASE st = "attack" -> RiseOk(x, lo(k), hi(k))
          [] st = "decay" -> One - r.sus[1] >= 335544 =>
               FallOk(x, r.sus[1], One - r.sus[1], 167773, lo(k), hi(k))
          [] st = "release" -> IF r.lev[1] >= 335544 THEN FallOk(x, 0, r.lev[1], 167773, lo(k), hi(k))
                               ELSE IsFinite(x) /\ Abs(x[1]) <= r.lev[1] + 167773
  IN st \in {"attack", "decay", "release"} =>
       /\ NotLate(lo(IF same THEN n ELSE n - 1), inc)
       /\ same \/ tiny \/ NotEarly(hi(n), inc)
       /\ n > 1 => Shape(f, 1)
       \* (the shape of the closing sample is its end level)
       /\ IF same THEN Shape(v, n)
          ELSE Sane(v) /\ Abs(v[1] - (IF st = "attack" THEN One ELSE IF st = "decay" THEN r.sus[1] ELSE 0)) <= 167773
ReleaseTick(n, f, v, mx, mn, s) ==
  CASE st = "release" ->
         /\ LET P(x) == LE(x, r.lev) IN All(P, n, f, v, mx, mn)
         /\ r.fresh => IF r.lev[1] >= 1024
                       THEN FallOk(f, 0, r.lev[1], r.lev[1] \div 100 + 4, r.r.lo, r.r.hi)
                       ELSE IsFinite(f) /\ Abs(f[1]) <= r.lev[1] + 4
    [] st = "sustain" -> LET P(x) == x = r.sus IN All(P, n, f, v, mx, mn)
    [] OTHER -> TRUE

Tick(n, f, v, up, dn, mx, mn, s) ==
  /\ Has("gate") => GateTick(n, f, v, mx, mn, s)
  /\ Has("range") => RangeTick(n, f, v, up, dn, mx, mn, s)
  /\ Has("shape") => ShapeTick(n, f, v, s)
  /\ Has("release") => ReleaseTick(n, f, v, mx, mn, s)
  /\ st' = s
  /\ LET inc == IF st = "attack" THEN r.a ELSE IF st = "decay" THEN r.d ELSE r.r
     IN r' = [r EXCEPT !.last = v, !.quiet = (s = st), !.fresh = FALSE,
                       !.plo = IF s # st THEN 0 ELSE Cap(r.plo + Times(n, inc.lo)),
                       !.phi = IF s # st THEN 0 ELSE Cap(r.phi + Times(n, inc.hi))]
=============================================================================

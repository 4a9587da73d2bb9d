-------------------------------- MODULE Osc ---------------------------------
(* Phase accumulator (C18), its checked frequency setter (C21), functional  *)
(* oscillator (C19) and wavetable oscillator (C20).                         *)
(* Words are <<hi, lo>> of 16 bits; frequencies <<sign, m, e>> = sign*m*2^e *)
(* with 2^23 <= m < 2^24 (or m = 0), sample rates <<m, e>> alike.           *)
EXTENDS Base, Tables

VARIABLES cnt,    \* phase counter without shift
          sh,     \* shift
          fr, sr, \* frequency and sample rate in force
          step,   \* <<>> until known, else <<word>>
          unc,    \* uncertainty of cnt in units of 2^-24 cycles (-1: unknown)
          wave,   \* "sine" "rect" "saw" "tri", "table" or "none"
          tab     \* [n, a, b, m]: cell i holds ((i*a + b) % m) - m \div 2
ovars == <<cnt, sh, fr, sr, step, unc, wave, tab>>

W0 == <<0, 0>>
WMax == <<65535, 65535>>
Add(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + l \div 65536) % 65536, l % 65536>>
Neg(x) == Add(<<65535 - x[1], 65535 - x[2]>>, <<0, 1>>)
Sub(x, y) == Add(x, Neg(y))
Top24(x) == x[1] * 256 + x[2] \div 256

RECURSIVE LD(_, _, _, _)
LD(q, m, b, n) == IF n = 0 THEN q
                 ELSE LET m2 == 2 * m IN LD(2 * q + (IF m2 >= b THEN 1 ELSE 0), IF m2 >= b THEN m2 - b ELSE m2, b, n - 1)
ShlDiv(a, b, n) == LD(a \div b, a % b, b, n)

\* The word v * 2^x, rounded down, for 0 <= v < 2^25
WordOf(v, x) ==
  IF x >= 9 \/ (x >= 0 /\ v >= Pow2(32 - Max2(x, 2))) THEN WMax
  ELSE IF x >= 0 THEN <<v \div Pow2(16 - x), (v % Pow2(16 - x)) * Pow2(x)>>
  ELSE IF x <= -26 THEN W0
  ELSE LET y == v \div Pow2(0 - x) IN <<y \div 65536, y % 65536>>
\* 2^32 f / sr = Q * 2^X
Q(f, s) == IF f[2] = 0 THEN 0 ELSE ShlDiv(f[2], s[1], 24)
X(f, s) == f[3] - s[2] + 8
ExactRate(s) == s[1] = 8388608
Step(f, s) == IF f[1] < 0 \/ f[2] = 0 THEN W0 ELSE WordOf(Q(f, s), X(f, s))
\* w differs from the exact step by at most 4 units of Q, or saturates
StepNear(f, s, w) ==
  IF f[1] < 0 \/ f[2] = 0 THEN w = W0
  ELSE IF ExactRate(s) THEN w = Step(f, s)
  ELSE LET q == Q(f, s) x == X(f, s)
       IN IF x > 8 \/ (x = 8 /\ q >= 16777216 + 4) THEN w = WMax
          ELSE \/ x = 8 /\ q >= 16777216 - 4 /\ w = WMax
               \/ x <= 0 /\ LET y == IF x <= -26 THEN 0 ELSE q \div Pow2(0 - x)
                            IN w[1] < 1024 /\ Abs(w[1] * 65536 + w[2] - y) <= 1 + (IF x <= -26 THEN 0 ELSE 4 \div Pow2(Min2(3, 0 - x)))
               \/ x > 0 /\ w[1] < Pow2(9 + x) /\ Abs(w[1] * Pow2(16 - x) + w[2] \div Pow2(x) - q) <= 5

Unknown == <<>>
Known(f, s) == IF ExactRate(s) \/ f[1] < 0 \/ f[2] = 0 THEN <<Step(f, s)>> ELSE Unknown
NoTab == [n |-> 0, a |-> 0, b |-> 0, m |-> 1]
OscInit == /\ cnt = W0 /\ sh = W0 /\ fr = <<1, 0, 0>> /\ sr = <<8388608, 0>> /\ step = <<W0>>
           /\ unc = 0 /\ wave = "none" /\ tab = NoTab

New(f, s, w, t) ==
  /\ cnt' = W0 /\ sh' = W0 /\ fr' = f /\ sr' = s /\ step' = Known(f, s) /\ unc' = 0
  /\ wave' = w /\ tab' = t
SetFreq(f) == fr' = f /\ step' = Known(f, sr) /\ UNCHANGED <<cnt, sh, sr, unc, wave, tab>>
SetRate(s) == sr' = s /\ step' = Known(fr, s) /\ UNCHANGED <<cnt, sh, fr, unc, wave, tab>>
SetShift(x) == sh' = x /\ UNCHANGED <<cnt, fr, sr, step, unc, wave, tab>>
SetWave(w) == wave' = w /\ UNCHANGED <<cnt, sh, fr, sr, step, unc, tab>>

\* ---- raw readings ----
ReadRaw(w) ==
  LET c == Sub(w, sh)
      d == Sub(c, cnt)
  IN /\ IF unc # 0 THEN step' = step
        ELSE IF step # Unknown THEN d = step[1] /\ step' = step
        ELSE StepNear(fr, sr, d) /\ step' = <<d>>
     /\ cnt' = c /\ unc' = 0
     /\ UNCHANGED <<sh, fr, sr, wave, tab>>
\* normalised reading v at scale 2^24: phase/2^32 within 2^-24, below 1
NormNear(v, w) == /\ IsFinite(v) /\ v[1] >= 0 /\ (v[1] < 16777216)
                  /\ v[1] - Top24(w) \in -1..2
ReadNorm(v) ==
  IF step # Unknown
    THEN LET c == Add(cnt, step[1])
         IN /\ unc = 0 => NormNear(v, Add(c, sh))
            /\ IsFinite(v) /\ v[1] >= 0 /\ v[1] < 16777216
            /\ cnt' = c /\ UNCHANGED <<sh, fr, sr, step, unc, wave, tab>>
    ELSE \* the step cannot be inferred from 24 bits: resynchronised by the next raw reading
         /\ IsFinite(v) /\ v[1] >= 0 /\ v[1] < 16777216
         /\ cnt' = Add(cnt, Step(fr, sr)) /\ unc' = -1 /\ UNCHANGED <<sh, fr, sr, step, wave, tab>>

\* ---- long runs: n readings at once ----
RECURSIVE TimesW(_, _)
TimesW(w, n) == IF n = 0 THEN W0
                ELSE LET d == TimesW(w, n \div 2) IN IF n % 2 = 1 THEN Add(Add(d, d), w) ELSE Add(d, d)
\* n >= 1 raw readings, first v, last w; every one d after the one before, except ex of them
RunRaw(n, v, w, d, ex) ==
  /\ n >= 1 /\ unc = 0 /\ step # Unknown
  /\ v = Add(Add(cnt, step[1]), sh)
  /\ w = Add(Add(cnt, TimesW(step[1], n)), sh)
  /\ ex = 0 /\ (n > 1 => d = step[1])
  /\ cnt' = Add(cnt, TimesW(step[1], n))
  /\ UNCHANGED <<sh, fr, sr, step, unc, wave, tab>>
\* n >= 1 normalised readings: the last one v, ex of them outside [0, 1)
RunNorm(n, v, ex) ==
  /\ n >= 1 /\ unc = 0 /\ step # Unknown
  /\ ex = 0
  /\ LET c == Add(cnt, TimesW(step[1], n))
     IN NormNear(v, Add(c, sh)) /\ cnt' = c
  /\ UNCHANGED <<sh, fr, sr, step, unc, wave, tab>>

\* ---- checked frequency setter ----
\* f > sr/2, and clearly so (by more than single precision)
Above(f, s) == X(f, s) > 7 \/ (X(f, s) = 7 /\ f[2] > s[1])
ClearlyAbove(f, s) == LET x == X(f, s) IN x > 8 \/ (x = 8 /\ Q(f, s) > 8388612) \/ (x = 7 /\ Q(f, s) > 16777224)
SetChecked(f, k, e) ==
  IF f[2] = 0 THEN k = "err" /\ e = "Zero" /\ UNCHANGED ovars
  ELSE IF f[1] < 0 THEN k = "err" /\ e = "Negative" /\ UNCHANGED ovars
  ELSE IF k = "err" THEN e = "BiggerThanNyquist" /\ Above(f, sr) /\ UNCHANGED ovars
  ELSE ~ClearlyAbove(f, sr) /\ SetFreq(f)

\* ---- oscillators: p = word, u = uncertainty in 2^-24 ----
One == 16777216
SinQ(t) == SinTab[t \div 16384 + 1] + ((SinTab[t \div 16384 + 2] - SinTab[t \div 16384 + 1]) * ((t % 16384) \div 64)) \div 256
\* sin(2 pi p) for p at 2^24 (quarter = 2^22, table of 256 steps)
Sin24(p) ==
  LET k == p \div 4194304
      t == p % 4194304
      q(x) == IF x >= 4194304 THEN One ELSE SinQ(x)
  IN IF k = 0 THEN q(t) ELSE IF k = 1 THEN q(4194304 - t) ELSE IF k = 2 THEN 0 - q(t) ELSE 0 - q(4194304 - t)
\* is the wrap (or the middle, for the rectangle) within the uncertainty?
AtWrap(p, u) == u > 0 /\ (p <= u + 2 \/ p >= One - u - 2)
WaveOk(w, p, u, v) ==
  /\ IsFinite(v)
  /\ v[1] >= 0 - One - (IF w = "sine" THEN 16777 ELSE 0) /\ v[1] <= One + (IF w = "sine" THEN 16777 ELSE 0)
  /\ CASE w = "saw" -> Abs(v[1] - (2 * p - One)) <= 4 + 2 * u \/ AtWrap(p, u)
       [] w = "rect" -> /\ v \in {<<0 - One, 0>>, <<One, 0>>}
                        /\ \/ v[1] = IF p < One \div 2 THEN 0 - One ELSE One
                           \/ Abs(p - One \div 2) <= 1 + u
                           \/ AtWrap(p, u)
       [] w = "tri" -> \/ Abs(v[1] - (IF p < One \div 2 THEN 4 * p - One ELSE 3 * One - 4 * p)) <= 8 + 4 * u
                       \/ AtWrap(p, u) /\ v[1] <= 0 - One + 8 * u + 16
       [] w = "sine" -> Abs(v[1] - Sin24(p)) <= 16777 + 100 + 7 * u
       [] OTHER -> FALSE
\* wavetable: scale 4096
Cell(i) == ((i * tab.a + tab.b) % tab.m) - tab.m \div 2
TabRange == tab.m
\* position n * (hi*2^16 + lo) / 2^32 as <<cell, 16-bit fraction>>, n < 2^23
Place(hi, lo, n) ==
  LET B == (hi * (n % 256)) + (((lo * (n \div 256)) + ((lo * (n % 256)) \div 256)) \div 256)
      C == (hi * (n \div 256)) + (B \div 256)
  IN <<C \div 256, ((C % 256) * 256) + (B % 256)>>
TableAt(hi, lo) ==
  LET z == Place(hi, lo, tab.n)
      i == z[1]
      f == z[2]
      a == Cell(i)
      b == Cell((i + 1) % tab.n)
  IN a * 4096 + ((b - a) * f) \div 16
TableOk(hi, lo, u, v) ==
  /\ Near(v, TableAt(hi, lo), 6 + tab.m \div 12 + (TabRange * tab.n * (1 + Min2(u, 200))) \div 2048)
  /\ \E i \in 0..(Min2(tab.n, tab.m) - 1) : v[1] >= Cell(i) * 4096 - 4
  /\ \E i \in 0..(Min2(tab.n, tab.m) - 1) : v[1] <= Cell(i) * 4096 + 4
\* (compared with TRUE so that TLC evaluates it instead of branching on it)
OutOk(w, u, v) == TRUE = IF wave = "table" THEN TableOk(w[1], w[2], u, v) ELSE WaveOk(wave, Top24(w), u, v)
NextOut(v) ==
  LET s == Step(fr, sr)
      c == Add(cnt, s)
      u == IF step # Unknown THEN unc ELSE Min2(unc + 2 + Top24(s) \div 1048576, 65536)
  IN /\ OutOk(Add(c, sh), u, v)
     /\ cnt' = c /\ unc' = u
     /\ UNCHANGED <<sh, fr, sr, step, wave, tab>>
\* n outputs of an oscillator whose step is exact, the last one v
RunOut(n, v) ==
  /\ n >= 1 /\ step # Unknown
  /\ LET c == Add(cnt, TimesW(step[1], n))
     IN OutOk(Add(c, sh), unc, v) /\ cnt' = c
  /\ UNCHANGED <<sh, fr, sr, step, unc, wave, tab>>
\* shift of k/65536 cycles; k = 65536 may be any of the two words next to 0
OscShift(k) == /\ sh' = <<k % 65536, 0>>
               /\ unc' = IF k = 65536 THEN Max2(unc, 1) ELSE unc
               /\ UNCHANGED <<cnt, fr, sr, step, wave, tab>>
\* an oscillator over a scripted accumulator: it must take exactly one
\* normalised reading; p at scale 2^24
NextScripted(p, c, v) == c = 1 /\ OutOk(<<p \div 256, (p % 256) * 256>>, 0, v) /\ UNCHANGED ovars
=============================================================================

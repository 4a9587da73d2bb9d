-------------------------------- MODULE MCOsc -------------------------------
(* Design model of the phase accumulator: every interleaving of frequency,  *)
(* rate and shift changes, raw and normalised readings, checked against a   *)
(* byte-wise tally of the steps that does no carrying at all.               *)
EXTENDS Osc
CONSTANTS Freqs, Rates, Shifts, Budget
VARIABLES tally, ticks, n
mv == <<cnt, sh, fr, sr, step, unc, wave, tab, tally, ticks, n>>

Bytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Plus(a, b) == [i \in 1..4 |-> a[i] + b[i]]
Carry(t) ==
  LET a == t[4]
      b == t[3] + a \div 256
      c == t[2] + b \div 256
      d == t[1] + c \div 256
  IN <<(d % 256) * 256 + (c % 256), (b % 256) * 256 + (a % 256)>>

FreqSet == { <<1, 8388608, -22>>, <<1, 12582913, -15>>, <<1, 16777215, -8>>, <<1, 8388609, -2>>,
             <<1, 8388608, 3>>, <<-1, 8388608, -10>>, <<1, 0, 0>>, <<1, 11534336, -13>>, <<1, 9999999, -31>> }
RateSet == { <<8388608, -8>>, <<8388608, -7>>, <<8388608, -10>> }
ShiftSet == { <<0, 0>>, <<32768, 0>>, <<65535, 65535>>, <<4660, 22136>> }

MCInit == /\ \E f \in Freqs, s \in Rates : 
               /\ cnt = W0 /\ sh = W0 /\ fr = f /\ sr = s /\ step = Known(f, s) /\ unc = 0
               /\ wave = "none" /\ tab = NoTab
          /\ tally = <<0, 0, 0, 0>> /\ ticks = 0 /\ n = 0
Ideal == Add(Add(cnt, step[1]), sh)
Top == Top24(Ideal)
MCNext ==
  /\ n < Budget /\ n' = n + 1
  /\ \/ \E f \in Freqs : f # fr /\ SetFreq(f) /\ UNCHANGED <<tally, ticks>>
     \/ \E s \in Rates : s # sr /\ SetRate(s) /\ UNCHANGED <<tally, ticks>>
     \/ \E x \in Shifts : x # sh /\ SetShift(x) /\ UNCHANGED <<tally, ticks>>
     \/ ReadRaw(Ideal) /\ tally' = Plus(tally, Bytes(step[1])) /\ ticks' = ticks + 1
     \/ ReadNorm(<<Top, 0>>) /\ tally' = Plus(tally, Bytes(step[1])) /\ ticks' = ticks + 1
     \/ \E f \in Freqs : \E r \in {"ok", "err"} : \E e \in {"", "Zero", "Negative", "BiggerThanNyquist"} :
          SetChecked(f, r, e) /\ UNCHANGED <<tally, ticks>>
MCSpec == MCInit /\ [][MCNext]_mv

\* the phase is the sum of the steps, whatever else happened
PhaseIsSum == cnt = Carry(tally)
\* readings are decided: the ideal ones are accepted, neighbours are not
RawDecided == /\ ENABLED ReadRaw(Ideal)
              /\ ~ENABLED ReadRaw(Add(Ideal, <<0, 1>>))
              /\ ~ENABLED ReadRaw(Add(Ideal, <<32768, 0>>))
              /\ step[1] # W0 => ~ENABLED ReadRaw(Add(cnt, sh))
NormDecided == /\ ENABLED ReadNorm(<<Top, 0>>)
               /\ Top < 16777212 => ~ENABLED ReadNorm(<<Top + 4, 0>>)
               /\ Top > 4 => ~ENABLED ReadNorm(<<Top - 4, 0>>)
               /\ ~ENABLED ReadNorm(<<16777216, 0>>)
\* the checked setter has exactly one outcome for every frequency away from
\* the Nyquist rounding zone
Outcomes(f) == { o \in {<<"ok", "">>, <<"err", "Zero">>, <<"err", "Negative">>, <<"err", "BiggerThanNyquist">>} : ENABLED SetChecked(f, o[1], o[2]) }
CheckedDecided == \A f \in Freqs : Cardinality(Outcomes(f)) = 1
\* settings never move the counter, readings never change the settings
Separate == [][ /\ (ticks' = ticks => cnt' = cnt)
                /\ (ticks' # ticks => <<fr, sr, sh, step>>' = <<fr, sr, sh, step>>)
                /\ (sh' # sh => <<fr, sr, step>>' = <<fr, sr, step>>) ]_mv

\* ---- facts about the arithmetic, evaluated once ----
\* exact division: a * 2^24 = q * b + r, modulo two primes
DivFacts == \A a \in {8388608, 9999991, 12345678, 16777215} : \A b \in {8388608, 11289600, 12288000, 16777215, 9000001} :
  LET q == ShlDiv(a, b, 24)
      RECURSIVE Rem(_, _)
      Rem(m, i) == IF i = 0 THEN m ELSE Rem((2 * m) % b, i - 1)
      r == Rem(a % b, 24)
  IN \A p \in {9973, 32749} : ((a % p) * (16777216 % p)) % p = (((q % p) * (b % p)) + r) % p
\* one cycle of the sawtooth step at sr/2^k: 2^k readings return to the start
Periods == \A k \in 1..6 :
  LET s == Step(<<1, 8388608, -8 - k>>, <<8388608, -8>>)
      RECURSIVE It(_, _)
      It(w, i) == IF i = 0 THEN w ELSE It(Add(w, s), i - 1)
  IN It(W0, Pow2(k)) = W0 /\ \A j \in 1..(Pow2(k) - 1) : It(W0, j) # W0
\* waveforms on a grid of phases
Grid == { i * 32961 : i \in 0..508 } \cup {0, 1, 4194303, 4194304, 8388607, 8388608, 12582912, 16777215}
Tri(p) == IF p < One \div 2 THEN 4 * p - One ELSE 3 * One - 4 * p
Waves == \A p \in Grid :
  /\ Abs(Sin24(p)) <= One
  /\ p > 0 => Abs(Sin24(p) + Sin24(One - p)) <= 400
  /\ LET c == Sin24((p + 4194304) % One)
     IN Abs(MulShrS(Sin24(p), Sin24(p), 24) + MulShrS(c, c, 24) - One) <= 1500
  /\ WaveOk("saw", p, 0, <<2 * p - One, 0>>) /\ ~WaveOk("saw", p, 0, <<2 * p - One + 100, 0>>)
  /\ WaveOk("tri", p, 0, <<Tri(p), 0>>) /\ ~WaveOk("tri", p, 0, <<Tri(p) - 100, 0>>)
  /\ WaveOk("sine", p, 0, <<Sin24(p), 0>>)
  /\ \A x \in {-1, 0, 1} : Abs(p - 8388608) > 1 => WaveOk("rect", p, 0, <<x * One, 0>>) <=> x = (IF p < 8388608 THEN -1 ELSE 1)
\* table positions: directly for small tables, modulo a prime for long ones
Words == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<32768, 0>>, <<65535, 65535>>, <<40000, 12345>>, <<123, 54321>>, <<65535, 0>>}
Places ==
  /\ \A w \in Words : \A len \in {1, 2, 3, 7, 255, 256, 257, 1000, 32767} :
       LET z == (w[1] * len) + ((w[2] * len) \div 65536) IN Place(w[1], w[2], len) = <<z \div 65536, z % 65536>>
  /\ \A w \in Words : \A len \in {32768, 65535, 65536, 65537, 70001, 300000} :
       LET z == Place(w[1], w[2], len)
           p == 30011    \* n * w = z * 2^16 + (n * lo) mod 2^16
           lhs == ((len % p) * (((w[1] % p) * 65536 + w[2]) % p)) % p
           r == (((((len % 65536) * (w[2] \div 256)) % 65536) * 256) + ((len % 65536) * (w[2] % 256))) % 65536
           rhs == (((((z[1] % p) * 65536 + z[2]) % p) * (65536 % p)) + r) % p
       IN z[1] < len /\ lhs = rhs
ASSUME Places
ASSUME DivFacts
ASSUME Periods
ASSUME Waves
=============================================================================

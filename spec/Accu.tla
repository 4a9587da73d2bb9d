-------------------------------- MODULE Accu --------------------------------
(* Oscillators over any phase accumulator (C38): a hardware timer, a table  *)
(* of phases, a counter that runs backwards.  The oscillator is nothing but *)
(* a view: every setting reaches the accumulator as given, one sample takes *)
(* one reading, taken when the sample is asked for, and depends on it only. *)
EXTENDS Osc
VARIABLES acc   \* the accumulator: settings as it has them, times it was told, readings taken
avars == <<acc, cnt, sh, fr, sr, step, unc, wave, tab>>
Unset == [f |-> "-", r |-> "-", s |-> <<0, 0>>, k |-> 0, n |-> 0]
AccuInit == OscInit /\ acc = Unset
Keep == UNCHANGED <<cnt, sh, fr, sr, step, unc>>
\* a new oscillator, over the accumulator of the one before, leaves it alone;
\* a: what the accumulator says
Build(w, t, a) == wave' = w /\ tab' = t /\ a = acc /\ UNCHANGED acc /\ Keep
Freq(f, a) == acc' = [acc EXCEPT !.f = f, !.k = @ + 1] /\ a = acc' /\ UNCHANGED <<wave, tab>> /\ Keep
Rate(r, a) == acc' = [acc EXCEPT !.r = r, !.k = @ + 1] /\ a = acc' /\ UNCHANGED <<wave, tab>> /\ Keep
\* a shift of m/2^24 cycles, 0 <= m <= 2^24, as a word: to single precision;
\* one whole cycle is none
ShiftNear(m, w) == LET d == (Top24(w) - m) % 16777216 IN d \in {0, 1, 16777215}
Shift(m, a) == /\ ShiftNear(m, a.s) /\ acc' = [acc EXCEPT !.s = a.s, !.k = @ + 1] /\ a = acc'
               /\ UNCHANGED <<wave, tab>> /\ Keep
Pick(w, a) == wave' = w /\ a = acc /\ UNCHANGED <<acc, tab>> /\ Keep
\* the accumulator is changed by others (a timer is reset)
Ext(a) == acc' = a /\ a.n = acc.n /\ a.k = acc.k /\ UNCHANGED <<wave, tab>> /\ Keep
\* a sample: the accumulator was about to read p / 2^24 (and something else after)
Sample(p, v, a) ==
  /\ acc' = [acc EXCEPT !.n = @ + 1] /\ a = acc'
  /\ OutOk(<<p \div 256, (p % 256) * 256>>, 0, v)
  /\ UNCHANGED <<wave, tab>> /\ Keep
=============================================================================

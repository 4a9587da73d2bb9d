------------------------------- MODULE MCAccu ------------------------------
(* Ways of being an oscillator over a foreign accumulator, against Accu.    *)
(* "through": hands everything on, reads when asked.  Wrong: "lazy" hands   *)
(* on only frequencies unlike the last; "ahead" reads one sample ahead;     *)
(* "twice" reads again for the triangle; "adds" shifts on top of the shift; *)
(* "kicks" clears the shift when built.                                     *)
EXTENDS Accu
CONSTANTS Design, Steps
VARIABLES conc,  \* the accumulator as the implementation has driven it
          last, held, bad, n
mv == <<acc, cnt, sh, fr, sr, step, unc, wave, tab, conc, last, held, bad, n>>
Ph == {0, 4194305, 8388608, 15000000}
Tri(p) == IF p < One \div 2 THEN 4 * p - One ELSE 3 * One - 4 * p
Value(p) == <<IF wave = "saw" THEN 2 * p - One ELSE Tri(p), 0>>
MInit == /\ OscInit /\ acc = Unset /\ n = 0 /\ bad = FALSE /\ last = "-"
         /\ conc = Unset /\ held = 0
Wait == wave = "none"
Judge(Act) == bad' = (bad \/ ~Act)
MNext ==
  /\ n < Steps /\ n' = n + 1 /\ ~bad
  /\ \/ \E w \in {"saw", "tri"} :
          LET c == CASE Design = "kicks" -> [conc EXCEPT !.s = <<0, 0>>, !.k = @ + 1]
                     [] Design = "ahead" -> [conc EXCEPT !.n = @ + 1]
                     [] OTHER -> conc
          IN /\ (Wait \/ w # wave) /\ conc' = c /\ last' = "-" /\ held' \in (IF Design = "ahead" THEN Ph ELSE {0})
             /\ Judge(ENABLED Build(w, NoTab, c)) /\ Build(w, NoTab, acc)
     \/ ~Wait /\ \E w \in {"saw", "tri"} : w # wave /\ Pick(w, acc) /\ bad' = bad /\ UNCHANGED <<conc, last, held>>
     \/ ~Wait /\ \E f \in {"lo", "hi"} :
          LET c == IF Design = "lazy" /\ f = last THEN conc ELSE [conc EXCEPT !.f = f, !.k = @ + 1]
          IN conc' = c /\ last' = f /\ held' = held /\ Judge(ENABLED Freq(f, c)) /\ Freq(f, [acc EXCEPT !.f = f, !.k = @ + 1])
     \/ ~Wait /\ \E m \in {0, 4194304, 16777216} :
          LET w == <<(m \div 256) % 65536, 0>>
              c == [conc EXCEPT !.s = IF Design = "adds" THEN Add(conc.s, w) ELSE w, !.k = @ + 1]
          IN conc' = c /\ UNCHANGED <<last, held>> /\ Judge(ENABLED Shift(m, c)) /\ Shift(m, [acc EXCEPT !.s = w, !.k = @ + 1])
     \/ ~Wait /\ conc' = [conc EXCEPT !.f = "-"] /\ Ext([acc EXCEPT !.f = "-"]) /\ bad' = bad /\ UNCHANGED <<last, held>>
     \/ ~Wait /\ \E p \in Ph, q \in Ph :
          LET k == IF Design = "twice" /\ wave = "tri" THEN 2 ELSE 1
              c == [conc EXCEPT !.n = @ + k]
              v == Value(IF Design = "ahead" THEN held ELSE p)
          IN /\ conc' = c /\ held' = p /\ last' = last
             /\ Judge(ENABLED Sample(p, v, c)) /\ Sample(p, Value(p), [acc EXCEPT !.n = @ + 1])
MSpec == MInit /\ [][MNext]_mv
NeverBad == ~bad
InStep == bad \/ (conc = acc /\ (~Wait => acc.n <= n))
\* the law admits one value only, away from rounding
Decided == ~Wait => \A p \in Ph : LET a == [acc EXCEPT !.n = @ + 1] IN
   /\ ENABLED Sample(p, Value(p), a)
   /\ ~ENABLED Sample(p, Value(p), acc)
   /\ p > 0 => ~ENABLED Sample(p, <<Value(p)[1] + 2000, 0>>, a) \/ Value(p)[1] > One - 2000
=============================================================================

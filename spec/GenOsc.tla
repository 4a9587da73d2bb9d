------------------------------- MODULE GenOsc -------------------------------
(* Accumulator and oscillator behaviours: every sequence of setting changes *)
(* and readings of a given length, one printed script per path.             *)
EXTENDS Osc
CONSTANTS Depth, Kind
VARIABLES path, n
gv == <<cnt, sh, fr, sr, step, unc, wave, tab, path, n>>
FB == (<<1, 8388608, -22>> :> "1073741824") @@ (<<1, 12582913, -15>> :> "1136656385") @@ (<<1, 8388609, -2>> :> "1241513985") @@ (<<-1, 8388608, -10>> :> "-973078528") @@ (<<1, 0, 0>> :> "0") @@ (<<1, 8388608, -16>> :> "1124073472") @@ (<<1, 8388608, -17>> :> "1115684864") @@ (<<1, 8388609, -17>> :> "1115684865")
RB == (<<8388608, -8>> :> "1191182336") @@ (<<8388608, -7>> :> "1199570944")
Fs == IF Kind = "cf" THEN DOMAIN FB ELSE {<<1, 12582913, -15>>, <<1, 8388608, -16>>, <<1, 8388609, -2>>}
XB == (<<32768, 0>> :> "-2147483648") @@ (<<65535, 65535>> :> "-1") @@ (<<4660, 22136>> :> "305419896")
Waves4 == {"sine", "rect", "saw", "tri"}
F0 == <<1, 12582913, -15>>
S0 == <<8388608, -8>>
GenInit == /\ cnt = W0 /\ sh = W0 /\ fr = F0 /\ sr = S0 /\ step = Known(F0, S0) /\ unc = 0
           /\ wave = (IF Kind = "os" THEN "saw" ELSE IF Kind = "ot" THEN "table" ELSE "none")
           /\ tab = (IF Kind = "ot" THEN [n |-> 5, a |-> 37, b |-> 11, m |-> 90] ELSE NoTab) /\ n = 0
           /\ path = (IF Kind = "os" THEN "os saw " ELSE IF Kind = "ot" THEN "ot 5 37 11 90 " ELSE "pa ") \o FB[F0] \o " " \o RB[S0]
Ap(t) == path' = path \o ";" \o t
Advance == cnt' = Add(cnt, step[1]) /\ UNCHANGED <<sh, fr, sr, step, unc, wave, tab>>
GenNext == /\ n < Depth /\ n' = n + 1
           /\ \/ \E f \in Fs : Kind # "cf" /\ f # fr /\ SetFreq(f) /\ Ap("f " \o FB[f])
              \/ \E s \in DOMAIN RB : s # sr /\ SetRate(s) /\ Ap("sr " \o RB[s])
              \/ \E x \in DOMAIN XB : Kind = "pa" /\ x # sh /\ SetShift(x) /\ Ap("sh " \o XB[x])
              \/ \E x \in {0, 16384, 49152, 65535} : Kind \in {"os", "ot"} /\ OscShift(x) /\ Ap("osh " \o ToString(x))
              \/ \E w \in Waves4 : Kind = "os" /\ w # wave /\ SetWave(w) /\ Ap("w " \o w)
              \/ Kind \in {"pa", "cf"} /\ Advance /\ Ap("rd")
              \/ Kind = "pa" /\ Advance /\ Ap("nm")
              \/ Kind \in {"os", "ot"} /\ Advance /\ Ap("nx")
              \/ \E f \in Fs : \E k \in {"ok", "err"} : \E e \in {"", "Zero", "Negative", "BiggerThanNyquist"} :
                   Kind = "cf" /\ SetChecked(f, k, e) /\ Ap("cf " \o FB[f])
GenSpec == GenInit /\ [][GenNext]_gv
Close == IF Kind \in {"os", "ot"} THEN ";nx;nx;nx;guard" ELSE ";rd;nm;rd"
Emit == n' = Depth => PrintT("OPS " \o path' \o Close)
=============================================================================

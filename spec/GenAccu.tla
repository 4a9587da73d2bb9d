------------------------------ MODULE GenAccu ------------------------------
(* Every sequence of settings, tampering and samples of a given length, for *)
(* an oscillator over a foreign accumulator; one printed script per path.   *)
EXTENDS Accu
CONSTANTS Kind, Depth
VARIABLES path, n
gv == <<acc, cnt, sh, fr, sr, step, unc, wave, tab, path, n>>
Ap(t) == path' = path \o ";" \o t
\* phases 0, 1/4, 1/2, 15/16 as bit patterns
PB == {"0", "1048576000", "1056964608", "1064304640"}
GenInit == /\ OscInit /\ acc = Unset /\ n = 0
           /\ path = IF Kind = "gt" THEN "gt 5 37 11 90" ELSE "gs saw"
Free == UNCHANGED <<acc, cnt, sh, fr, sr, step, unc, wave, tab>>
GenNext == /\ n < Depth /\ n' = n + 1 /\ Free
           /\ \/ \E f \in {"1138491392", "1147207680"} : Ap("gf " \o f)
              \/ Ap("gr 1195081728")
              \/ \E m \in {0, 4194304, 16777216} : Ap("gh " \o ToString(m))
              \/ Ap("gx 77")
              \/ Ap(IF Kind = "gt" THEN "gt 3 5 1 17" ELSE "gs saw")
              \/ \E w \in {"sine", "rect", "tri"} : Kind = "gs" /\ Ap("gw " \o w)
              \/ Ap("gn 1048576000 1064304640")
GenSpec == GenInit /\ [][GenNext]_gv
RECURSIVE Close(_)
Close(s) == IF s = {} THEN "" ELSE LET x == CHOOSE x \in s : TRUE IN ";gn " \o x \o " 1061158912" \o Close(s \ {x})
Emit == n' = Depth => PrintT("OPS " \o path' \o Close(PB))
=============================================================================

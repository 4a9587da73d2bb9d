------------------------------ MODULE GenBounds -----------------------------
(* Prints one operation script per transition of a small state graph: every *)
(* kind of device over every short slice at either end of its memory, at    *)
(* every position; in each, every call with every kind of hostile argument, *)
(* followed by an observation of the complete state.                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MaxN, Kinds
VARIABLES kind, n, b, pos, path, op
S(i) == ToString(i)
Far == {"9223372036854775807", "9223372036854775806", "9223372036854775805", "9223372036854775804",
        "-9223372036854775808", "-9223372036854775807", "4611686018427387904", "-4611686018427387904",
        "4294967295", "2147483648", "-2147483649", "-1", S(n), S(n - 1), S(n - 3), S(-n)}
Large == {"18446744073709551615", "18446744073709551614", "9223372036854775808", "4611686018427387904",
          "13835058055282163712", "4294967296", S(n), S(n + 1), "0"}
\* NaNs, infinities, the largest floats, 2^63 and around it, 2^64, 2^31, 2^24,
\* the smallest float, -0, -1, and the last float below 1, 2, 3 and 4
Odd == {2143289344, -4194304, 2139095040, -8388608, 2139095039, -8388609, 1593835520, 1593835519, -553648128,
        -553648127, 1602224128, 1325400064, -822083584, 1266679808, 1, -2147483647, -1082130432,
        1065353215, 1073741823, 1077936127, 1082130431}
Worst == {2143289344, 2139095040, -8388608, 1593835520, -553648127, 2139095039, 1065353215}
Windows == {"0", "1", "2", "3", "99", "100", "101", "255", "256", "257", "300", "356", "65540", "65636", "4294967297", "9223372036854775808", "18446744073709551615"}
RECURSIVE Cells(_)
Cells(i) == IF i = 0 THEN "" ELSE Cells(i - 1) \o " " \o S(i * 1000003)
Ats == {<<m, c>> \in (1..MaxN) \X (0..N) : c = 0 \/ c = N - m}
Side(c) == IF c = 0 THEN "0" ELSE "1"
GenInit == \E k \in Kinds, a \in Ats :
  /\ kind = k /\ n = a[1] /\ b = a[2] /\ pos = 0 /\ op = "start"
  /\ path = "init " \o Side(a[2]) \o Cells(N) \o ";mk " \o k \o " " \o S(a[2]) \o " " \o S(a[1])
Do(t) == op' = t /\ path' = path \o ";" \o t
Stay(t) == Do(t) /\ UNCHANGED <<kind, n, b, pos>>
Move(t) == Do(t) /\ pos' = (pos + 1) % n /\ UNCHANGED <<kind, n, b>>
Line ==
  \/ \E i \in Far, o \in {"wr ", "wru ", "four ", "tap "} : Stay(o \o i)
  \/ \E i \in Large : Stay("get " \o i) \/ Stay("set " \o i \o " 7")
  \/ \E i, m \in Large : Stay("sub " \o i \o " " \o m)
  \/ \E p \in Odd, o \in {"lerp", "lerpw", "lag4", "tlerp", "tlag", "wt", "ls", "lr"} : Stay("x " \o o \o " " \o S(p))
  \/ \E p \in Worst, w \in Windows : Stay("x lagw " \o S(p) \o " " \o w)
  \/ \E p \in Worst : Stay("x lag " \o S(p))
  \/ \E p \in {2143289344, 2139095040, 1} : Move("dw " \o S(p))
  \/ Move("adv")
Filter ==
  \/ \E p \in Odd : Move("tick " \o S(p))
  \/ kind = "comb" /\ \E p \in Odd, o \in {"fb f ", "fb d "} : Stay(o \o S(p))
\* only within the same end, so that the fences stay where they are
Swap == \E a \in Ats : /\ Side(a[2]) = Side(b) /\ a[1] # n
                       /\ n' = a[1] /\ b' = a[2] /\ pos' = (IF pos < a[1] THEN pos ELSE 0) /\ kind' = kind
                       /\ Do("swap " \o S(a[2]) \o " " \o S(a[1]))
GenNext == (IF kind = "dl" THEN Line ELSE Filter) \/ Swap
gvars == <<kind, n, b, pos, path, op>>
GenSpec == GenInit /\ [][GenNext]_gvars
View1 == <<kind, n, b, pos>>
Observe == IF kind = "dl" THEN ";rd;snap;dw 5;snap" ELSE ";tick 1065353216;snap"
Emit == PrintT("OPS " \o path' \o Observe)
=============================================================================

------------------------------ MODULE MCBiquad ------------------------------
(* The recursion of Biquad equals the direct-form difference equation, each *)
(* sample weighted by the coefficients in force when it was processed, for  *)
(* every short input sequence and schedule of coefficient changes; filters  *)
(* do not influence each other (the second one stays as it is).             *)
EXTENDS Biquad
CONSTANTS Depth, Sets
VARIABLES xs, ys, cs
mv == <<co, z, ex, memo, xs, ys, cs>>
CoefSets == {<<64, 0, 0, 0, 0>>, <<32, 64, -32, 64, -32>>, <<0, -64, 128, -64, 64>>, <<128, 32, 64, 32, 32>>}
In == {0, 65536, -131072}
D == CHOOSE f \in Filters : TRUE
MCInit == /\ BiquadInit /\ xs = <<>> /\ ys = <<>> /\ cs = <<>>
MCNext == /\ Len(xs) < Depth
          /\ \/ \E c \in CoefSets : c # co[D] /\ Set(D, c) /\ UNCHANGED <<xs, ys, cs>>
             \/ \E x \in In :
                  LET y == StepOf(co[D], z[D], x).y
                  IN /\ Process(D, x, <<y, 0>>)
                     /\ xs' = Append(xs, x) /\ ys' = Append(ys, y) /\ cs' = Append(cs, co[D])
MCSpec == MCInit /\ [][MCNext]_mv
C(t) == IF t >= 1 THEN cs[t] ELSE Zero5
X(t) == IF t >= 1 THEN xs[t] ELSE 0
Y(t) == IF t >= 1 THEN ys[t] ELSE 0
Direct(t) == (C(t)[1] * (X(t) \div 64) + C(t - 1)[2] * (X(t - 1) \div 64) + C(t - 2)[3] * (X(t - 2) \div 64))
             - C(t - 1)[4] * (Y(t - 1) \div 64) - C(t - 2)[5] * (Y(t - 2) \div 64)
DirectForm == ex => \A t \in 1..Len(ys) : ys[t] = Direct(t)
Isolated == \A f \in Filters \ {D} : co[f] = Zero5 /\ z[f] = <<0, 0>>
Exactness == Len(xs) <= 3 => ex
=============================================================================

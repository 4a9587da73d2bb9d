------------------------------ MODULE GenBiquad -----------------------------
(* Biquad behaviours: every operation sequence of a given length on two     *)
(* filters: coefficient changes, samples, replacement.                      *)
EXTENDS Biquad
CONSTANTS Depth, In
VARIABLES path, n
S(i) == ToString(i)
CoefSets == {<<64, 32, -32, 32, 16>>, <<32, -64, 64, -32, 32>>}
Cs(c) == S(c[1]) \o " " \o S(c[2]) \o " " \o S(c[3]) \o " " \o S(c[4]) \o " " \o S(c[5])
Ap(u) == path' = path \o ";" \o u
GenInit == BiquadInit /\ n = 0 /\ path = "sc 0;set 0 64 32 -32 32 16;x 0 65536;x 0 131072"
GenNext ==
  /\ n < Depth /\ n' = n + 1
  /\ \E f \in Filters :
     \/ \E x \in In : Process(f, x, <<StepOf(co[f], z[f], x).y, IF ex /\ StepOf(co[f], z[f], x).e THEN 0 ELSE 1>>) /\ Ap("x " \o S(f) \o " " \o S(x))
     \/ \E c \in CoefSets : Set(f, c) /\ Ap("set " \o S(f) \o " " \o Cs(c))
     \/ New(f) /\ Ap("nf " \o S(f))
GenSpec == GenInit /\ [][GenNext]_<<co, z, ex, memo, path, n>>
Emit == n' = Depth => PrintT("OPS " \o path' \o ";x 0 0;x 1 65536;x 0 0;x 1 0")
=============================================================================

------------------------------- MODULE GenBits ------------------------------
(* Register histories: load a word, then every sequence of reductions and   *)
(* conversions of a given length.                                           *)
EXTENDS Bits
CONSTANTS Depth, Kind
VARIABLES path, n
gv == <<reg, path, n>>
Words == (<<0, 0>> :> "0") @@ (<<32768, 0>> :> "-2147483648") @@ (<<16256, 0>> :> "1065353216") @@ (<<49024, 0>> :> "-1082130432")
   @@ (<<16256, 1>> :> "1065353217") @@ (<<16255, 65535>> :> "1065353215") @@ (<<49023, 65535>> :> "-1082130433") @@ (<<15790, 43981>> :> "1034857421")
   @@ (<<47872, 1>> :> "-1157627903") @@ (<<13331, 4660>> :> "873665076") @@ (<<0, 1>> :> "1") @@ (<<32896, 0>> :> "-2139095040")
   @@ (<<32639, 65535>> :> "2139095039") @@ (<<16457, 4059>> :> "1078530011")
Ap(t) == path' = path \o ";" \o t
GenInit == n = 0 /\ \E w \in DOMAIN Words : reg = w /\ path = "ld " \o Words[w]
LinDs == {0, 1, 2, 8, 16, 23, 24, 30, 31, 255}
ExpDs == {0, 1, 8, 16, 22, 23, 24, 32, 255}
GenNext == /\ n < Depth /\ n' = n + 1
           /\ \/ Kind = "cv" /\ reg' = reg /\ Ap("cv")
              \/ \E d \in LinDs : Kind = "lin" /\ Ap("lin " \o ToString(d))
                    /\ reg' = (IF d > 30 \/ Outside(reg) THEN reg ELSE Lin(reg, d))
              \/ \E d \in ExpDs : Kind = "exp" /\ Ap("exp " \o ToString(d)) /\ reg' = (IF d > 23 THEN reg ELSE ExpRed(reg, d))
              \/ \E d \in {1, 8, 23} : Kind = "cv" /\ Ap("exp " \o ToString(d)) /\ reg' = ExpRed(reg, d)
GenSpec == GenInit /\ [][GenNext]_gv
Emit == n' = Depth => PrintT("OPS " \o path' \o ";cv")
=============================================================================

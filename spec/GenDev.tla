------------------------------- MODULE GenDev ------------------------------
(* Delay-line behaviours: one script per transition of the state graph.     *)
EXTENDS Dev
CONSTANTS N, Vals, Emitted
VARIABLES path, op
gvars == <<mem, dev, mode, ex, path, op>>
D == CHOOSE d \in Devs : TRUE
R == dev[D]
S(i) == ToString(i)
Ap(o, t) == path' = path \o ";" \o t /\ op' = o
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE " 0" \o Zeros(n - 1)
Regions == {<<b, n>> \in (0..(N - 1)) \X (1..N) : b + n <= N}
GenInit == /\ mem = [j \in 1..N |-> 0] /\ mode = "i" /\ ex = TRUE /\ op = "init"
           /\ \E q \in Regions :
                /\ dev = [d \in Devs |-> [NoDev EXCEPT !.t = "dl", !.b = q[1], !.n = q[2]]]
                /\ path = "init i " \o S(N) \o Zeros(N) \o ";new 0 dl " \o S(q[1]) \o " " \o S(q[2])
GenNext ==
  \/ \E v \in Vals : WriteAdv(D, v) /\ Ap("wa", "wa 0 " \o S(v))
  \/ Advance(D) /\ Ap("adv", "adv 0")
  \/ Wipe(D) /\ Ap("wipe", "wipe 0")
  \/ \E c \in 0..(N - 1), v \in Vals : Poke(c, v) /\ Ap("poke", "poke " \o S(c) \o " " \o S(v) \o " " \o S((c + v) % 4) \o " 0")
  \/ Read(D, At(R, 0)) /\ Ap("rd", "rd 0")
  \/ \E q \in Regions : Change(D, q[1], q[2]) /\ Ap("chg", "chg 0 " \o S(q[1]) \o " " \o S(q[2]))
  \/ \E k \in (0 - N - 1)..(N + 1) :
       /\ UNCHANGED dvars
       /\ Ap("tap", "tap 0 " \o S(k) \o ";gtap 0 " \o S(k) \o " 2 4;gtap 0 " \o S(k) \o " 0 4")
GenSpec == GenInit /\ [][GenNext]_gvars
View1 == <<mem, dev>>
Emit == op' \in Emitted => PrintT("OPS " \o path' \o ";ptr 0;rd 0;tap 0 -1;tap 0 1;snap")
=============================================================================

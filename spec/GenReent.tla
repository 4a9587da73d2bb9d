------------------------------ MODULE GenReent ------------------------------
(* Schedules of two objects: kinds, and an order of whole steps of either   *)
(* and of steps of the first that the second interrupts at a given share of *)
(* the call; afterwards objects of the same makings run alone.              *)
EXTENDS Reent, Sequences
CONSTANTS Kinds, Depth, Shares, Seeds
VARIABLES path, n, len, ks
gv == <<rvars, path, n, len, ks>>
S(x) == ToString(x)
GenInit == ReentInit /\ path = "" /\ n = <<0, 0>> /\ len = 0 /\ ks = <<>>
Make == /\ ks = <<>>
        /\ \E a, b \in Kinds : \E s \in Seeds :
             /\ ks' = <<S(a) \o " " \o S(100 * s + a), S(b) \o " " \o S(100 * s + 50 + b)>>
             /\ path' = "obj " \o S(a) \o " " \o S(100 * s + a) \o ";obj " \o S(b) \o " " \o S(100 * s + 50 + b)
        /\ UNCHANGED <<n, len>>
Whole(i) == /\ path' = path \o ";st " \o S(i - 1) /\ n' = [n EXCEPT ![i] = @ + 1]
Interrupted(p) == /\ path' = path \o ";at " \o S(p) \o " 1 1;pre 0" /\ n' = <<n[1] + 1, n[2] + 1>>
Act == /\ ks # <<>> /\ len < Depth /\ len' = len + 1 /\ ks' = ks
       /\ \/ \E i \in 1..2 : Whole(i)
          \/ \E p \in Shares : Interrupted(p)
GenNext == (Make \/ Act) /\ UNCHANGED rvars
GenSpec == GenInit /\ [][GenNext]_gv
Alone(i) == ";obj " \o ks[i] \o (IF n'[i] = 0 THEN "" ELSE ";st " \o S(i + 1) \o " " \o S(n'[i]))
Emit == (len' = Depth /\ n'[1] # 0) => PrintT("OPS " \o path' \o Alone(1) \o Alone(2) \o ";go")
=============================================================================

------------------------------- MODULE GenFilt -----------------------------
(* Comb / all-pass behaviours: every operation sequence of a given length.  *)
EXTENDS Dev
CONSTANTS T, NS, In, Fbs, Dms, Swaps, Depth
VARIABLES path, n
gvars == <<mem, dev, mode, ex, path, n>>
D == CHOOSE d \in Devs : TRUE
R == dev[D]
S(i) == ToString(i)
Ap(t) == path' = path \o ";" \o t
Cells == <<65536, 131072, 0, -65536>>
FbSet == {0, -128, 64}
InSet == {0, 65536, -32768}
NoSwaps == {}
SomeSwaps == {<<1, 3>>, <<2, 1>>, <<0, 2>>}
GenInit == /\ mem = Cells /\ mode = "x" /\ ex = TRUE /\ n = 0
           /\ \E m \in NS :
                /\ dev = [d \in Devs |-> [NoDev EXCEPT !.t = T, !.n = m]]
                /\ path = "init x 4 65536 131072 0 -65536;new 0 " \o T \o " 0 " \o S(m)
Out(x) == IF T = "comb" THEN CombTick(D, x, <<At(R, 0), 0>>) ELSE ApTick(D, x, <<At(R, 0) - x, 0>>)
GenNext ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E x \in In : Out(x) /\ Ap("tick 0 " \o S(x))
     \/ \E k \in Fbs : SetFb(D, 128 * k) /\ Ap("fb 0 " \o S(k))
     \/ \E k \in Dms : SetDm(D, 128 * k) /\ Ap("dm 0 " \o S(k))
     \/ \E q \in Swaps : Change(D, q[1], q[2]) /\ Ap("chg 0 " \o S(q[1]) \o " " \o S(q[2]))
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == n' = Depth => PrintT("OPS " \o path' \o ";tick 0 65536;tick 0 0;tick 0 0;tick 0 0;ptr 0;snap")
=============================================================================

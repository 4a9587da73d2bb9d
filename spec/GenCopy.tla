------------------------------- MODULE GenCopy -----------------------------
(* Two values over one memory: every sequence of uses, copies, exchanges    *)
(* and swaps of a given length, one printed script per path.                *)
EXTENDS Dev
CONSTANTS T, Ways, Depth
VARIABLES path, n
gvars == <<mem, dev, mode, ex, path, n>>
S(i) == ToString(i)
Ap(t) == path' = path \o ";" \o t
Cells == <<65536, 131072, 0, -65536>>
GenInit == /\ mem = Cells /\ mode = "x" /\ ex = TRUE /\ n = 0
           /\ dev = [d \in Devs |-> [NoDev EXCEPT !.t = T, !.b = d, !.n = 3 - d]]
           /\ path = "init x 4 65536 131072 0 -65536;new 0 " \o T \o " 0 3;new 1 " \o T \o " 1 2"
Tick(d, x) == IF T = "comb" THEN CombTick(d, x, <<At(dev[d], 0), 0>>)
              ELSE IF T = "ap" THEN ApTick(d, x, <<At(dev[d], 0) - x, 0>>)
              ELSE WriteAdv(d, x)
Word == IF T = "dl" THEN "wa " ELSE "tick "
Dx == IF T = "dl" THEN "rd 0;rd 1;tap 0 -1;tap 1 -1" ELSE "tick 0 65536;tick 1 0;tick 0 0;tick 1 0"
GenNext ==
  /\ n < Depth /\ n' = n + 1
  /\ \E d \in Devs : 
       \/ Tick(d, 131072) /\ Ap(Word \o S(d) \o " 131072")
       \/ \E e \in Devs \ {d}, w \in Ways : CopyDev(d, e) /\ Ap("cpd " \o S(d) \o " " \o S(e) \o " " \o S(w))
       \/ d = 0 /\ Swap(0, 1) /\ Ap("swp 0 1")
       \/ T = "comb" /\ SetFb(d, 8192) /\ Ap("fb " \o S(d) \o " 64")
       \/ Change(d, 1, 3) /\ Ap("chg " \o S(d) \o " 1 3")
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == n' = Depth => PrintT("OPS " \o path' \o ";" \o Dx \o ";ptr 0;ptr 1;snap")
=============================================================================

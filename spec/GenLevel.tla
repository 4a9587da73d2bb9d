------------------------------- MODULE GenLevel -----------------------------
(* Level behaviours: the product of boundary words, two calls per history,  *)
(* enumerated by TLC and printed as scripts.                                *)
EXTENDS Level
CONSTANT Kind
VARIABLES path, n
gv == <<ref, path, n>>
WStr(w) == ToString((IF w[1] >= 32768 THEN (w[1] - 65536) * 65536 ELSE w[1] * 65536) + w[2])
Amt == { <<16256, 0>>, <<49024, 0>>, <<16256, 1>>, <<49024, 1>>, <<16255, 65535>>, <<49023, 65535>>, <<0, 0>>, <<32768, 0>>,
         <<16128, 0>>, <<48896, 0>>, <<16192, 0>>, <<48960, 0>>, <<15872, 0>>, <<16384, 0>>, <<49152, 0>>, <<32640, 0>>, <<65408, 0>>, <<32639, 65535>> }
Ends == { <<0, 0>>, <<32768, 0>>, <<16256, 0>>, <<49024, 0>>, <<17224, 0>>, <<50000, 0>>, <<32640, 0>>, <<65408, 0>>, <<32704, 0>>, <<65472, 1>>, <<32640, 1>> }
Ts == { <<0, 0>>, <<32768, 0>>, <<16256, 0>>, <<16256, 1>>, <<16255, 65535>>, <<32768, 1>>, <<49024, 0>>, <<16128, 0>>, <<16000, 0>>, <<32640, 0>>, <<65408, 0>>, <<0, 1>> }
Ratios == { <<0, 0>>, <<32768, 0>>, <<32768, 1>>, <<0, 1>>, <<128, 0>>, <<127, 65535>>, <<16256, 0>>, <<16255, 65535>>, <<16256, 1>>, <<16384, 0>>,
            <<16128, 0>>, <<32639, 65535>>, <<32640, 0>>, <<65408, 0>>, <<32640, 1>>, <<65472, 0>>, <<49024, 0>>, <<65407, 65535>>, <<16672, 0>>, <<15820, 52429>>, <<10000, 0>>, <<25000, 7>> }
Clips == { <<16256, 0>>, <<49024, 0>>, <<16256, 1>>, <<49024, 1>>, <<16255, 65535>>, <<49023, 65535>>, <<0, 0>>, <<32768, 0>>, <<0, 1>>, <<32768, 1>>,
           <<32639, 65535>>, <<65407, 65535>>, <<32640, 0>>, <<65408, 0>>, <<16128, 0>>, <<48896, 0>> }
Times0 == { <<0, 0>>, <<16256, 0>>, <<49024, 0>>, <<18235, 32768>>, <<14979, 4719>>, <<17530, 0>>, <<20000, 12345>>, <<10000, 54321>> }
Rates0 == { <<18235, 32768>>, <<18220, 17408>>, <<16256, 0>>, <<17914, 0>>, <<18619, 32768>>, <<16257, 4660>> }
Calls ==
  IF Kind = "pan" THEN { o \o " " \o WStr(a) \o " " \o s \o " 0" : o \in {"mp", "sp"}, a \in Amt, s \in {"32768 -16384", "-4194303 77", "1 0"} }
                       \cup { "xf " \o WStr(a) \o " " \o s \o " 0" : a \in { x \in Amt : ~AboveOne(x) }, s \in {"32768 -16384", "-4194303 77", "1 0"} }
  ELSE IF Kind = "db" THEN { "db " \o WStr(w) : w \in Ratios } \cup { "rt " \o WStr(w) : w \in { x \in Ratios : ExpOf(x) \in 10..245 /\ ~Neg(x) } }
  ELSE IF Kind = "clip" THEN { "cd w " \o WStr(w) : w \in Clips }
                       \cup { o \o " w " \o WStr(w) \o " " \o WStr(p) : o \in {"ctanh", "cpoly", "csig"}, w \in { x \in Clips : AboveOne(x) }, p \in {<<0, 0>>, <<16256, 0>>, <<49024, 0>>, <<32704, 0>>} }
  ELSE IF Kind = "lerp" THEN { "lp " \o WStr(a) \o " " \o WStr(b) \o " " \o WStr(t) \o " 0" : a \in Ends, b \in Ends, t \in Ts }
  ELSE { "tm " \o WStr(x) \o " " \o WStr(r) : x \in Times0, r \in Rates0 }
GenInit == LevelInit /\ n = 0 /\ path = ""
GenNext == /\ n < (IF Kind \in {"db", "pan"} THEN 2 ELSE 1) /\ n' = n + 1 /\ UNCHANGED ref
           /\ \E c \in Calls : path' = (IF n = 0 THEN c ELSE path \o ";" \o c)
GenSpec == GenInit /\ [][GenNext]_gv
Emit == n' = (IF Kind \in {"db", "pan"} THEN 2 ELSE 1) => PrintT("OPS " \o path')
=============================================================================

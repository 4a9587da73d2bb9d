------------------------------- MODULE GenAdsr ------------------------------
(* Envelope behaviours: every sequence of gates, sustain changes, resets,   *)
(* single and long ticks of a given length, from the ideal envelope.        *)
EXTENDS MCAdsr
CONSTANT Depth
VARIABLES path, n
gv == <<st, r, k, known, left, hist, path, n>>
Bits == (0 :> "0") @@ (Half :> "1056964608") @@ ((One \div 4) :> "1048576000")
GenInit == /\ MCInit /\ n = 0
           /\ path = "new " \o ToString(Na * 64) \o " " \o ToString(Nd * 64) \o " " \o Bits[r.sus[1]]
                     \o " " \o ToString(Nr * 64) \o " 1 1 1024"
Ap(t) == path' = path \o ";" \o t
GenNext == /\ n < Depth /\ n' = n + 1
           /\ \/ DoTick /\ Ap("tk 1")
              \/ DoOn /\ Ap("on")
              \/ DoOff /\ Ap("off")
              \/ DoRst /\ Ap("rst")
              \/ \E u \in SusSet : u # r.sus /\ Spend /\ SetSus(u, st) /\ UNCHANGED <<k, known, hist>> /\ Ap("u " \o Bits[u[1]])
GenSpec == GenInit /\ [][GenNext]_gv
OneK == known' \/ k' = 0 \/ st # "decay"
Emit == n' = Depth => PrintT("OPS " \o path' \o ";tk 1;tk 400;u 1048576000;tk 1;off;tk 1;tk 400;tk 2")
=============================================================================

----------------------------- MODULE TraceReent -----------------------------
(* Accepts a recorded history iff it is a behaviour of Reent.               *)
EXTENDS Reent, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<ob, memo, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == ReentInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("prog") /\ UNCHANGED rvars /\ Step
  \/ Is("crowd") /\ Crowd /\ Step
  \/ Is("new") /\ New(E.d) /\ Step
  \/ Is("beg") /\ Begin(E.i, IF "n" \in DOMAIN E THEN E.n ELSE 1) /\ Step
  \/ Is("end") /\ End(E.i, E.v) /\ Step
  \/ Is("mem") /\ Memory(E.i, E.v) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

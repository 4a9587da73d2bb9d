------------------------------ MODULE TraceWork -----------------------------
(* Accepts a recorded history iff it is a behaviour of Work.                *)
EXTENDS Work, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<base, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == WorkInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("ref") /\ Ref(E.w, E.c) /\ Step
  \/ Is("call") /\ Call(E.w, E.c) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

----------------------------- MODULE TraceSpace -----------------------------
(* Accepts a recorded history iff it is a behaviour of Space.               *)
EXTENDS Space, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<base, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == SpaceInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("plain") /\ Plain(E.w, E.st, E.al) /\ Step
  \/ Is("room") /\ Room(E.w, E.st, E.al) /\ Step
  \/ Is("size") /\ Object(E.b) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

----------------------------- MODULE TraceApprox ----------------------------
(* Accepts a recorded history iff it is a behaviour of Approx.              *)
EXTENDS Approx, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<last, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == ApproxInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("fix") /\ FixBlock(E.d, E.z, E.v, E.u) /\ Step
  \/ Is("fs") /\ ReadSin(E.x, E.v) /\ Step
  \/ Is("fc") /\ ReadCos(E.x, E.v) /\ Step
  \/ Is("rg") /\ ReadRange(E.v) /\ Step
  \/ Is("ls") /\ ReadPeriod(E.v, E.w) /\ Step
  \/ Is("br") /\ (ReadRect(E.x, E.v) /\ TRUE) /\ Step
  \/ Is("sc") /\ ReadSinc(E.x, E.v, E.w) /\ Step
  \/ Is("si") /\ ReadSi(E.x, E.v, E.w) /\ Step
  \/ Is("ch") /\ ReadCosh(E.x, E.v) /\ Step
  \/ Is("sh") /\ ReadSinh(E.x, E.v) /\ Step
  \/ Is("th") /\ ReadTanh(E.x, E.v) /\ Step
  \/ Is("ft") /\ ReadTan(E.x, E.v) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

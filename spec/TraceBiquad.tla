---------------------------- MODULE TraceBiquad ----------------------------
(* Accepts a recorded history iff it is a behaviour of Biquad.              *)
EXTENDS Biquad, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<co, z, ex, memo, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == BiquadInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("sc") /\ UNCHANGED bvars /\ Step
  \/ Is("nf") /\ New(E.f) /\ Step
  \/ Is("set") /\ Set(E.f, E.c) /\ Step
  \/ Is("x") /\ Process(E.f, E.x, E.v) /\ Step
  \/ Is("xn") /\ CycleRun(E.f, E.x, E.n, E.v, E.df) /\ Step
  \/ Is("des") /\ Design(E.t, E.j, E.r, E.q, E.g, E.p, E.v, E.raw) /\ Step
  \/ Is("stab") /\ DesignStable(E.p, E.v, E.raw) /\ Step
  \/ Is("burst") /\ Decay(E.m) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

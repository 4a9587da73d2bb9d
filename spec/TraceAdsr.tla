------------------------------ MODULE TraceAdsr -----------------------------
(* Accepts a recorded history iff it is a behaviour of Adsr.                *)
EXTENDS Adsr, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<st, r, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == AdsrInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("new") /\ New(E.a, E.d, E.u, E.r, E.sl, E.sr, E.s) /\ Step
  \/ Is("a") /\ SetA(E.m, E.s) /\ Step
  \/ Is("d") /\ SetD(E.m, E.s) /\ Step
  \/ Is("r") /\ SetR(E.m, E.s) /\ Step
  \/ Is("u") /\ SetSus(E.u, E.s) /\ Step
  \/ Is("sl") /\ SetSlope(E.sl, E.s) /\ Step
  \/ Is("sr") /\ SetSr(E.sr, E.s) /\ Step
  \/ Is("on") /\ On(E.s) /\ Step
  \/ Is("off") /\ Off(E.s, E.same = 1) /\ Step
  \/ Is("rst") /\ Reset(E.s) /\ Step
  \/ Is("tk") /\ Tick(E.n, E.f, E.v, E.up, E.dn, E.mx, E.mn, E.s) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

----------------------------- MODULE TraceLevel -----------------------------
(* Accepts a recorded history iff it is a behaviour of Level.               *)
EXTENDS Level, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<ref, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k \in {"ok", "err"}
Step == l' = l + 1 /\ h' = h
TraceInit == LevelInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("mp") /\ Mono(E.a, E.s, E.k, E.e, E.v, E.u) /\ Step
  \/ Is("sp") /\ Stereo(E.a, E.s, E.k, E.e, E.v, E.u) /\ Step
  \/ Is("xf") /\ Crossfade(E.a, E.s, E.v) /\ Step
  \/ Is("pc") /\ PanClass(E.f, E.a, E.s1, E.s2, E.k, E.e, E.v, E.u) /\ Step
  \/ Is("db") /\ ToDb(E.w, E.pk, E.pe, E.pv, E.sk, E.se, E.sv, E.u) /\ Step
  \/ Is("rt") /\ RoundTrip(E.w, E.v) /\ Step
  \/ Is("vr") /\ ToRatio(E.d, E.v) /\ Step
  \/ Is("cd") /\ Digital(E.w, E.v) /\ Step
  \/ Is("ctanh") /\ Shaped(E.w, E.v) /\ Step
  \/ Is("cpoly") /\ Shaped(E.w, E.v) /\ Step
  \/ Is("csig") /\ Shaped(E.w, E.v) /\ Step
  \/ Is("lp") /\ LerpEv(E.a, E.b, E.t, E.k, E.e, E.v, E.u, E.an, E.bn, E.tn, E.vn) /\ Step
  \/ Is("tm") /\ Times(E.x, E.sr, E.sec, E.ms, E.smp, E.msmp, E.b1, E.b2, E.b3, E.b4) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

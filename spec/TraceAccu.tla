------------------------------ MODULE TraceAccu -----------------------------
(* Accepts a recorded history iff it is a behaviour of Accu.                *)
EXTENDS Accu, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<acc, cnt, sh, fr, sr, step, unc, wave, tab, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step2 == l' = l + 1 /\ h' = h
Tb == [n |-> E.n, a |-> E.a, b |-> E.b, m |-> E.m]
A == [f |-> E.af, r |-> E.ar, s |-> E.as, k |-> E.ak, n |-> E.an]
TraceInit == AccuInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("gs") /\ Build(E.w, NoTab, A) /\ Step2
  \/ Is("gt") /\ Build("table", Tb, A) /\ Step2
  \/ Is("gf") /\ Freq(E.f, A) /\ Step2
  \/ Is("gr") /\ Rate(E.r, A) /\ Step2
  \/ Is("gh") /\ Shift(E.x, A) /\ Step2
  \/ Is("gw") /\ Pick(E.w, A) /\ Step2
  \/ Is("gx") /\ Ext(A) /\ Step2
  \/ Is("gn") /\ Sample(E.p, E.v, A) /\ Step2
  \/ Is("guard") /\ E.g = 1 /\ UNCHANGED avars /\ Step2
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

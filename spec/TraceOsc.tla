------------------------------ MODULE TraceOsc ------------------------------
(* Accepts a recorded history iff it is a behaviour of Osc.                 *)
EXTENDS Osc, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<cnt, sh, fr, sr, step, unc, wave, tab, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k \in {"ok", "err"}
Step2 == l' = l + 1 /\ h' = h
Tb == [n |-> E.n, a |-> E.a, b |-> E.b, m |-> E.m]
TraceInit == OscInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("pa") /\ New(E.f, E.sr, "none", NoTab) /\ Step2
  \/ Is("os") /\ New(E.f, E.sr, E.w, NoTab) /\ Step2
  \/ Is("ot") /\ New(E.f, E.sr, "table", Tb) /\ Step2
  \/ Is("ss") /\ New(<<1, 0, 0>>, <<8388608, 0>>, E.w, NoTab) /\ Step2
  \/ Is("st") /\ New(<<1, 0, 0>>, <<8388608, 0>>, "table", Tb) /\ Step2
  \/ Is("f") /\ SetFreq(E.f) /\ Step2
  \/ Is("cf") /\ SetChecked(E.f, E.k, E.e) /\ Step2
  \/ Is("sr") /\ SetRate(E.sr) /\ Step2
  \/ Is("sh") /\ SetShift(E.x) /\ Step2
  \/ Is("osh") /\ OscShift(E.x) /\ Step2
  \/ Is("w") /\ SetWave(E.w) /\ Step2
  \/ Is("rd") /\ ReadRaw(E.v) /\ Step2
  \/ Is("nm") /\ ReadNorm(E.v) /\ Step2
  \/ Is("nx") /\ NextOut(E.v) /\ Step2
  \/ Is("rdn") /\ RunRaw(E.n, E.v, E.w, E.d, E.ex) /\ Step2
  \/ Is("nmn") /\ RunNorm(E.n, E.v, E.ex) /\ Step2
  \/ Is("nxn") /\ RunOut(E.n, E.v) /\ Step2
  \/ Is("nxs") /\ NextScripted(E.p, E.c, E.v) /\ Step2
  \/ Is("guard") /\ E.g = 1 /\ UNCHANGED ovars /\ Step2
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

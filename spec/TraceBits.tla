------------------------------ MODULE TraceBits -----------------------------
(* Accepts a recorded history iff it is a behaviour of Bits.                *)
EXTENDS Bits, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<reg, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k \in {"ok", "err"}
Step == l' = l + 1 /\ h' = h
TraceInit == BitsInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("ld") /\ Load(E.w) /\ Step
  \/ Is("cv") /\ Convert(E.raw, E.dec, E.f, E.u, E.jf, E.ju) /\ Step
  \/ Is("jn") /\ Assemble(E.s, E.x, E.m, E.jf, E.ju) /\ Step
  \/ Is("lin") /\ Linear(E.d, E.k, E.e, E.v, E.u) /\ Step
  \/ Is("exp") /\ Exponential(E.d, E.k, E.e, E.v, E.u) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

---------------------------- MODULE TraceBounds -----------------------------
(* Accepts a recorded history iff it is a behaviour of Bounds.              *)
EXTENDS Bounds, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<mem, b, n, pos, kind, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ (E.k \in {"ok", "err"} \/ (o = "x" /\ E.k = "panic"))
OkK == E.k = "ok"
Step == l' = l + 1 /\ h' = h
Res(v) == [k |-> E.k, e |-> E.e, v |-> v]
TraceInit == BoundsInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("init") /\ OkK /\ Load(E.m) /\ Step
  \/ Is("mk") /\ OkK /\ Make(E.kind, E.b, E.n) /\ Step
  \/ Is("x") /\ Hostile(E.k, E.c, E.p, E.w) /\ Step
  \/ Is("get") /\ Get(E.i, IF OkK THEN Ok(E.v) ELSE Res(0)) /\ Step
  \/ Is("set") /\ Set(E.i, E.x, Res(0)) /\ Step
  \/ Is("sub") /\ Sub(E.off, E.n, Res(0), E.sb, E.sn) /\ Step
  \/ Is("wr") /\ OkK /\ Wrapped(E.i, E.v) /\ Step
  \/ Is("four") /\ OkK /\ Four(E.i, E.vs) /\ Step
  \/ Is("tap") /\ OkK /\ Tap(E.i, E.v) /\ Step
  \/ Is("rd") /\ OkK /\ Read(E.v) /\ Step
  \/ Is("dw") /\ OkK /\ Write(E.x) /\ Step
  \/ Is("adv") /\ OkK /\ Advance /\ Step
  \/ Is("tick") /\ OkK /\ Tick(E.m) /\ Step
  \/ Is("fb") /\ OkK /\ Setting /\ Step
  \/ Is("swap") /\ OkK /\ Swap(E.b, E.n) /\ Step
  \/ Is("snap") /\ OkK /\ Snapshot(E.m, E.g) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

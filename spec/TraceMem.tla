------------------------------ MODULE TraceMem ------------------------------
(* Accepts a recorded history iff it is a behaviour of Mem.                 *)
EXTENDS Mem, Giant, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<mem, sl, giant, h, l>>
E == H[h][l]
\* panics, crashes and hangs have no action at all
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k \in {"ok", "err"}
Next1 == l' = l + 1 /\ h' = h
Step == Next1 /\ UNCHANGED gvars
GStep == Next1 /\ UNCHANGED mvars
OkK == E.k = "ok"
Res(v) == [k |-> E.k, e |-> E.e, v |-> v]

TraceInit == MemInit /\ GiantInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("init") /\ OkK /\ Load(E.m) /\ Step
  \/ (Is("ro") \/ Is("rw") \/ Is("chg") \/ Is("chgm")) /\ OkK /\ Make(E.h, E.b, E.n) /\ Step
  \/ (Is("null") \/ Is("nullm") \/ Is("chgz") \/ Is("chgmz")) /\ OkK /\ MakeNull(E.h) /\ Step
  \/ Is("cp") /\ OkK /\ Copy(E.d, E.h) /\ Step
  \/ Is("len") /\ OkK /\ Length(E.h, E.r) /\ Step
  \/ (Is("raw") \/ Is("rawm")) /\ OkK /\ Raw(E.h, E.b, E.n) /\ Step
  \/ Is("snap") /\ OkK /\ Snapshot(E.m, E.g) /\ Step
  \/ Is("get") /\ Get(E.h, E.i, IF E.k = "ok" THEN Ok(E.v) ELSE Res(0)) /\ Step
  \/ Is("set") /\ Set(E.h, E.i, E.x, Res(0)) /\ Step
  \/ Is("getu") /\ OkK /\ GetU(E.h, E.i, E.v) /\ Step
  \/ Is("setu") /\ OkK /\ SetU(E.h, E.i, E.x) /\ Step
  \/ Is("sub") /\ Sub(E.d, E.h, E.off, E.n, Res(0)) /\ Step
  \/ (Is("wr") \/ Is("wru")) /\ OkK /\ Wrapped(E.h, E.i, E.v) /\ Step
  \/ Is("four") /\ OkK /\ Four(E.h, E.i, E.vs) /\ Step
  \/ Is("lerpw") /\ OkK /\ LerpW(E.h, E.fl, E.fr, E.x, E.v) /\ Step
  \/ Is("lerpu") /\ OkK /\ LerpU(E.h, E.fl, E.fr, E.x, E.v) /\ Step
  \/ Is("lerp") /\ E.k \in {"ok", "err"} /\ LerpC(E.h, E.cls, E.fl, E.fr, E.x, E.k, E.e, E.v) /\ Step
  \/ (Is("lag") \/ Is("lagf")) /\ OkK /\ Lag(E.d, E.p, E.s, E.v) /\ Step
  \/ Is("lagw") /\ OkK /\ LagW(E.h, E.fl, E.p, E.s, E.w, E.v) /\ Step
  \/ Is("lag4") /\ OkK /\ Lag4(E.h, E.fl, E.p, E.s, E.v) /\ Step
  \/ Is("fine") /\ OkK /\ LerpFine(E.a, E.b, E.p, E.kk, E.v) /\ Step
  \/ Is("basis") /\ OkK /\ Basis(E.w, E.p, E.s, E.y) /\ Step
  \/ Is("mix") /\ OkK /\ Mix(E.d, E.z, E.v) /\ Step
  \/ Is("Gi") /\ OkK /\ GLoad(E.n) /\ GStep
  \/ Is("Gm") /\ OkK /\ GMake(E.h, E.b, E.n) /\ GStep
  \/ Is("Glen") /\ OkK /\ GLen(E.h, E.n) /\ GStep
  \/ Is("Gsub") /\ GSub(E.d, E.h, E.off, E.n, Res(0)) /\ GStep
  \/ Is("Gget") /\ GGet(E.h, E.i, IF E.k = "ok" THEN Ok(E.v) ELSE Res(0)) /\ GStep
  \/ Is("Gset") /\ GSet(E.h, E.i, E.x, Res(0)) /\ GStep
  \/ Is("Gwr") /\ OkK /\ GWrapped(E.h, E.i, E.q, E.r, E.v) /\ GStep
  \/ Is("G4") /\ OkK /\ GFour(E.h, E.i, E.q, E.r, E.vs) /\ GStep
  \/ Is("Glw") /\ OkK /\ GLerpW(E.h, E.fl, E.q, E.r, E.fr, E.x, E.v) /\ GStep
  \/ Is("Gl") /\ GLerp(E.h, E.fl, E.fr, E.x, E.k, E.e, E.v) /\ GStep
  \/ Is("Gat") /\ OkK /\ GAtSample(E.h, E.fl, E.q, E.r, E.v) /\ GStep
  \/ Is("Gwin") /\ OkK /\ GWindow(E.h, E.first, E.q, E.r, E.w, E.p, E.s, E.v) /\ GStep
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================

------------------------------ MODULE TraceDev ------------------------------
(* Accepts a recorded history iff it is a behaviour of Dev.                 *)
EXTENDS Dev, Lines, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<mem, dev, mode, ex, line, h, l>>
E == H[h][l]
\* panics, crashes and hangs have no action at all
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Next == l' = l + 1 /\ h' = h
Step == Next /\ UNCHANGED lvars
Long == Next /\ UNCHANGED dvars

TraceInit == DevInit /\ LinesInit /\ h \in 1..Len(H) /\ l = 1
TraceNext ==
  \/ Is("init") /\ Load(E.m, E.mode) /\ Step
  \/ Is("new") /\ New(E.d, E.t, E.b, E.n) /\ Step
  \/ Is("cpd") /\ CopyDev(E.d, E.s) /\ Step
  \/ Is("twn") /\ Twin(E.d, E.eq) /\ Step
  \/ Is("scp") /\ SliceCopy(E.p, E.n, E.c) /\ Step
  \/ Is("swp") /\ Swap(E.d, E.s) /\ Step
  \/ Is("rd") /\ Read(E.d, E.v) /\ Step
  \/ Is("wa") /\ WriteAdv(E.d, E.x) /\ Step
  \/ Is("rwn") /\ WriteRun(E.d, E.x, E.n, E.vs) /\ Step
  \/ Is("adv") /\ Advance(E.d) /\ Step
  \/ Is("tap") /\ Tap(E.d, E.i, E.v) /\ Step
  \/ Is("ltap") /\ LerpTap(E.d, E.fl, E.fr, E.x, E.v) /\ Step
  \/ Is("btap") /\ TapWeights(E.w, E.p, E.s, E.y) /\ Step
  \/ Is("mix") /\ TapMix(E.d, E.z, E.v) /\ Step
  \/ Is("gtap") /\ LagTap(E.d, E.fl, E.p, E.s, E.v) /\ Step
  \/ Is("len") /\ Length(E.d, E.r) /\ Step
  \/ Is("ptr") /\ Raw(E.d, E.b, E.n) /\ Step
  \/ Is("chg") /\ Change(E.d, E.b, E.n) /\ Step
  \/ Is("poke") /\ Poke(E.c, E.x) /\ Step
  \/ Is("wipe") /\ Wipe(E.d) /\ Step
  \/ Is("fb") /\ SetFb(E.d, E.x) /\ Step
  \/ Is("dm") /\ SetDm(E.d, E.x) /\ Step
  \/ Is("tick") /\ (CombTick(E.d, E.x, E.v) \/ ApTick(E.d, E.x, E.v)) /\ Step
  \/ Is("hold") /\ HoldRun(E.d, E.n, E.vs, E.df) /\ Step
  \/ Is("advn") /\ AdvanceRun(E.d, E.n) /\ Step
  \/ Is("snap") /\ Snapshot(E.m, E.me, E.g) /\ Step
  \/ Is("Linit") /\ LLoad(E.n) /\ Long
  \/ Is("Lput") /\ LPut(E.p, E.v) /\ Long
  \/ Is("Lnew") /\ LNew(E.t, E.b, E.n) /\ Long
  \/ Is("Lchg") /\ LChange(E.b, E.n) /\ Long
  \/ Is("Lsz") /\ LSize(E.n, E.b, E.m) /\ Long
  \/ Is("Lrd") /\ LRead(E.v) /\ Long
  \/ Is("Ladv") /\ LAdvance /\ Long
  \/ Is("Lst") /\ LStep(E.x, E.v) /\ Long
  \/ Is("Lrun") /\ LRun(E.n, E.vs) /\ Long
  \/ Is("Lgo") /\ LGo(E.n, E.q, E.r) /\ Long
  \/ Is("Ltap") /\ LTap(E.i, E.sum, E.q, E.r, E.v) /\ Long
  \/ Is("Lltap") /\ LLerp(E.i, E.sum, E.q, E.r, E.fr, E.v) /\ Long
  \/ Is("Lgtap") /\ LLag(E.i, E.sum, E.q, E.r, E.p, E.s, E.v) /\ Long
  \/ Is("Lsnap") /\ LSnap(E.m) /\ Long
  \/ l > Len(H[h]) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

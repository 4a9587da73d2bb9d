------------------------------ MODULE TraceConc -----------------------------
(* Accepts a recorded history iff it is a behaviour of Conc (every cell has *)
(* one writer) or of Shared (both threads write every cell).                *)
EXTENDS Conc, Shared, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
CellsV == 1..4
ThreadsV == 1..4
Two == 1..2
VARIABLES h, l
tvars == <<begun, done, seen, act, bel, h, l>>
E == H[h][l]
Is(o) == l <= Len(H[h]) /\ E.o = o /\ E.k = "ok"
Step == l' = l + 1 /\ h' = h
TraceInit == ConcInit /\ SharedInit /\ h \in 1..Len(H) /\ l = 1
ConcNext ==
  \/ Is("prog") /\ UNCHANGED cvars /\ Step
  \* slices of either kind may be moved to and shared between threads
  \/ Is("caps") /\ E.b = <<1, 1, 1, 1>> /\ UNCHANGED cvars /\ Step
  \/ Is("wb") /\ WBegin(E.t, E.c, E.n) /\ Step
  \/ Is("we") /\ WEnd(E.t) /\ Step
  \/ Is("rb") /\ RBegin(E.t, E.c) /\ Step
  \/ Is("re") /\ REnd(E.t, E.v) /\ Step
  \/ Is("quiet") /\ E.g = 1 /\ Quiet(E.m) /\ Step
  \/ l > Len(H[h]) /\ UNCHANGED <<begun, done, seen, act, h, l>>
SharedNext ==
  \/ Is("swb") /\ SWBegin(E.t, E.c, E.n) /\ Step
  \/ Is("swe") /\ SWEnd(E.t) /\ Step
  \/ Is("srb") /\ SRBegin(E.t, E.c) /\ Step
  \/ Is("sre") /\ SREnd(E.t, E.v) /\ Step
  \/ Is("squiet") /\ E.g = 1 /\ SQuiet(E.m) /\ Step
TraceNext == \/ ConcNext /\ UNCHANGED bel
             \/ SharedNext /\ UNCHANGED cvars /\ bel' # {}
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

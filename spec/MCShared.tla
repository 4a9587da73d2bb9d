------------------------------ MODULE MCShared ------------------------------
(* The design under test: an access of a shared cell is one atomic access   *)
(* of one word.  What an observer sees of it must always be explained by    *)
(* some register history.  With Verify = TRUE a write looks whether it      *)
(* arrived and stores again if not; with Skip = TRUE a write of the value   *)
(* the thread wrote last to the cell is left out; with Late = TRUE a write  *)
(* stays in a buffer until the thread's next access.                        *)
EXTENDS Shared
CONSTANTS MaxW, MaxR, Verify, Skip, Late
VARIABLES mem, pc, nw, nr, last, buf
mv == <<mem, pc, nw, nr, last, buf, bel>>
NoBuf == <<>>
MCInit == /\ SharedInit /\ mem = [c \in SCells |-> 0] /\ pc = [t \in SThreads |-> [a |-> "idle"]]
          /\ nw = [t \in SThreads |-> 0] /\ nr = [t \in SThreads |-> 0]
          /\ last = [t \in SThreads |-> [c \in SCells |-> 0]] /\ buf = [t \in SThreads |-> NoBuf]
Drain(m, t) == IF buf[t] = NoBuf THEN m ELSE [m EXCEPT ![buf[t][1]] = buf[t][2]]
\* the values two threads write to one cell differ; the second write of a thread repeats its first one's when Skip
Ver(t, n) == (10 * t) + n
BeginW == \E t \in SThreads, c \in SCells :
  /\ pc[t].a = "idle" /\ nw[t] < MaxW
  /\ nw' = [nw EXCEPT ![t] = @ + 1]
  /\ LET v == Ver(t, IF Skip THEN 1 ELSE nw[t] + 1)
     IN /\ pc' = [pc EXCEPT ![t] = [a |-> "store", c |-> c, v |-> v]]
        /\ SWBegin(t, c, v)
  /\ mem' = Drain(mem, t) /\ buf' = [buf EXCEPT ![t] = NoBuf]
  /\ UNCHANGED <<nr, last>>
Store == \E t \in SThreads :
  /\ pc[t].a = "store"
  /\ LET c == pc[t].c v == pc[t].v
     IN /\ IF Skip /\ last[t][c] = v THEN UNCHANGED <<mem, buf>>
           ELSE IF Late THEN buf' = [buf EXCEPT ![t] = <<c, v>>] /\ UNCHANGED mem
           ELSE mem' = [mem EXCEPT ![c] = v] /\ UNCHANGED buf
        /\ last' = [last EXCEPT ![t][c] = v]
        /\ pc' = [pc EXCEPT ![t].a = IF Verify THEN "look" ELSE "wend"]
  /\ UNCHANGED <<nw, nr, bel>>
Look == \E t \in SThreads :
  /\ pc[t].a \in {"look", "again"}
  /\ IF pc[t].a = "look"
       THEN pc' = [pc EXCEPT ![t].a = IF mem[pc[t].c] = pc[t].v THEN "wend" ELSE "again"] /\ UNCHANGED mem
       ELSE mem' = [mem EXCEPT ![pc[t].c] = pc[t].v] /\ pc' = [pc EXCEPT ![t].a = "wend"]
  /\ UNCHANGED <<nw, nr, last, buf, bel>>
EndW == \E t \in SThreads :
  /\ pc[t].a = "wend" /\ pc' = [pc EXCEPT ![t] = [a |-> "idle"]]
  /\ SWEnd(t)
  /\ UNCHANGED <<mem, nw, nr, last, buf>>
BeginR == \E t \in SThreads : \E cs \in {<<c>> : c \in SCells} \cup {<<c, d>> : c \in SCells, d \in SCells} :
  /\ pc[t].a = "idle" /\ nr[t] < MaxR
  /\ nr' = [nr EXCEPT ![t] = @ + 1]
  /\ mem' = Drain(mem, t) /\ buf' = [buf EXCEPT ![t] = NoBuf]
  /\ pc' = [pc EXCEPT ![t] = [a |-> "load", c |-> cs, got |-> <<>>]]
  /\ SRBegin(t, cs)
  /\ UNCHANGED <<nw, last>>
Load == \E t \in SThreads :
  /\ pc[t].a = "load" /\ Len(pc[t].got) < Len(pc[t].c)
  /\ pc' = [pc EXCEPT ![t].got = Append(@, mem[pc[t].c[Len(@) + 1]])]
  /\ UNCHANGED <<mem, nw, nr, last, buf, bel>>
EndR == \E t \in SThreads :
  /\ pc[t].a = "load" /\ Len(pc[t].got) = Len(pc[t].c)
  /\ pc' = [pc EXCEPT ![t] = [a |-> "idle"]]
  /\ SREnd(t, pc[t].got)
  /\ UNCHANGED <<mem, nw, nr, last, buf>>
MCNext == BeginW \/ Store \/ Look \/ EndW \/ BeginR \/ Load \/ EndR
MCSpec == MCInit /\ [][MCNext]_mv
\* with nothing going on the registers are what the memory holds
Settled == (\A t \in SThreads : pc[t].a = "idle" /\ buf[t] = NoBuf) => \E s \in bel : s.cur = mem
=============================================================================

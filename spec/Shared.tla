------------------------------- MODULE Shared -------------------------------
(* Cells that several threads write (C32): each cell is one register.  An   *)
(* access takes effect at one hidden moment between its begin and its end,  *)
(* a wrapped window at one such moment per cell, in any order.  Written     *)
(* values are told apart by their versions; 0 is the initial content, -1 a  *)
(* value nobody wrote.                                                      *)
(*                                                                          *)
(* What an observer sees are begins, ends and the values read.  bel is the  *)
(* set of all register histories that explain what was seen so far; an      *)
(* observation that leaves none is no behaviour.                            *)
EXTENDS Base
CONSTANTS SCells, SThreads, Widest
VARIABLE bel
\* ------------------------------------------- one register history [cur, op]
Free == [o |-> "idle"]
Pending == -2
State0 == [cur |-> [c \in SCells |-> 0], op |-> [t \in SThreads |-> Free]]
WBeginS(s, t, c, v) == [s EXCEPT !.op[t] = [o |-> "w", c |-> c, v |-> v, d |-> FALSE]]
RBeginS(s, t, cs) == [s EXCEPT !.op[t] = [o |-> "r", c |-> cs, got |-> [i \in DOMAIN cs |-> Pending]]]
EndS(s, t) == [s EXCEPT !.op[t] = Free]
\* hidden: the write arrives, the i-th cell is read
CanWTake(s, t) == s.op[t].o = "w" /\ ~s.op[t].d
WTakeS(s, t) == [s EXCEPT !.cur[s.op[t].c] = s.op[t].v, !.op[t].d = TRUE]
CanRTake(s, t, i) == s.op[t].o = "r" /\ i \in DOMAIN s.op[t].c /\ s.op[t].got[i] = Pending
RTakeS(s, t, i) == [s EXCEPT !.op[t].got[i] = s.cur[s.op[t].c[i]]]
RECURSIVE Close(_)
Close(S) == LET N == S \cup {WTakeS(p[1], p[2]) : p \in {q \in S \X SThreads : CanWTake(q[1], q[2])}}
                       \cup {RTakeS(p[1], p[2], p[3]) : p \in {q \in S \X SThreads \X (1..Widest) : CanRTake(q[1], q[2], q[3])}}
            IN IF N = S THEN S ELSE Close(N)
\* ------------------------------------------------------------- observations
SharedInit == bel = {State0}
AllFree(t) == \A s \in bel : s.op[t].o = "idle"
SWBegin(t, c, v) == AllFree(t) /\ bel' = Close({WBeginS(s, t, c, v) : s \in bel})
SRBegin(t, cs) == AllFree(t) /\ bel' = Close({RBeginS(s, t, cs) : s \in bel})
SWEnd(t) == bel' = {EndS(s, t) : s \in {x \in bel : x.op[t].o = "w" /\ x.op[t].d}}
SREnd(t, vs) == bel' = {EndS(s, t) : s \in {x \in bel : x.op[t].o = "r" /\ x.op[t].got = vs}}
\* everything quiescent: the buffer holds what the registers hold
SQuiet(m) == bel' = {s \in bel : (\A t \in SThreads : s.op[t].o = "idle") /\ (\A c \in SCells : m[c] = s.cur[c])}
Explained == bel # {}
=============================================================================

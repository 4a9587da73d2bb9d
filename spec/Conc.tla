-------------------------------- MODULE Conc --------------------------------
(* Cells of one buffer used by several threads at once (C32).  Every access *)
(* has a begin and an end event; between them anything may happen in other  *)
(* threads.  A cell has one writer, whose n-th write carries version n;     *)
(* version 0 is the initial content.  A value that is not, as a whole, one  *)
(* of the written values has version -1.                                    *)
EXTENDS Base
CONSTANTS Cells, Threads
VARIABLES begun,  \* [Cells -> Nat] writes begun
          done,   \* [Cells -> Nat] writes completed
          seen,   \* [Threads -> [Cells -> Nat]] newest version the thread has read
          act     \* [Threads -> what the thread is in the middle of]
cvars == <<begun, done, seen, act>>

Idle == [o |-> "idle"]
ConcInit == /\ begun = [c \in Cells |-> 0] /\ done = [c \in Cells |-> 0]
            /\ seen = [t \in Threads |-> [c \in Cells |-> 0]]
            /\ act = [t \in Threads |-> Idle]

\* n >= 1 writes to c, one after the other
WBegin(t, c, n) == /\ act[t].o = "idle" /\ begun[c] = done[c] /\ n >= 1
                /\ begun' = [begun EXCEPT ![c] = @ + n]
                /\ act' = [act EXCEPT ![t] = [o |-> "w", c |-> c]]
                /\ UNCHANGED <<done, seen>>
WEnd(t) == /\ act[t].o = "w"
           /\ done' = [done EXCEPT ![act[t].c] = begun[act[t].c]]
           /\ act' = [act EXCEPT ![t] = Idle]
           /\ UNCHANGED <<begun, seen>>

(* reads of a sequence of cells cs (a single cell, the four of a wrapped    *)
(* window, or several reads one after the other); lo is the oldest version  *)
(* each read may still show                                                 *)
RBegin(t, cs) == /\ act[t].o = "idle"
                 /\ act' = [act EXCEPT ![t] = [o |-> "r", c |-> cs,
                       lo |-> [i \in DOMAIN cs |-> Max2(done[cs[i]], seen[t][cs[i]])]]]
                 /\ UNCHANGED <<begun, done, seen>>
Whole(t, vs) == /\ DOMAIN vs = DOMAIN act[t].c
                /\ \A i \in DOMAIN vs : /\ vs[i] >= act[t].lo[i] /\ vs[i] <= begun[act[t].c[i]]
                                        /\ \A j \in 1..(i - 1) : act[t].c[j] = act[t].c[i] => vs[j] <= vs[i]
REnd(t, vs) == /\ act[t].o = "r" /\ Whole(t, vs)
               /\ seen' = [seen EXCEPT ![t] = [c \in Cells |->
                     LET s == {vs[i] : i \in {j \in DOMAIN vs : act[t].c[j] = c}} \cup {@[c]}
                     IN CHOOSE m \in s : \A x \in s : x <= m]]
               /\ act' = [act EXCEPT ![t] = Idle]
               /\ UNCHANGED <<begun, done>>

\* everything quiescent: the buffer holds exactly the last versions
Quiet(m) == /\ \A t \in Threads : act[t].o = "idle"
            /\ \A c \in Cells : m[c] = done[c]
            /\ UNCHANGED cvars
=============================================================================

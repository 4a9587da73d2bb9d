------------------------------- MODULE MCConc -------------------------------
(* The design under test: every access is one atomic access of one word.    *)
(* Threads begin, touch the memory and end in separate steps.  Whatever the *)
(* interleaving, the value a thread is about to return is one Conc admits.  *)
(* With Halves = TRUE a write stores its word in two steps, with Wide =     *)
(* TRUE a write rewrites its right neighbour with the value it loaded       *)
(* before: both break the guarantee (see the expected counterexamples).     *)
EXTENDS Conc
CONSTANTS MaxVer, MaxReads, Halves, Wide, Owner
VARIABLES mem, reg, nr
mv == <<begun, done, seen, act, mem, reg, nr>>
CellSet == 1..3
Own2 == <<1, 2, 1>>
Own3 == <<1, 2, 3>>
Empty == <<>>
MCInit == /\ ConcInit /\ mem = [c \in Cells |-> <<0, 0>>]
          /\ reg = [t \in Threads |-> Empty] /\ nr = [t \in Threads |-> 0]
Put(c, v, hi, lo) == mem' = [mem EXCEPT ![c] = <<IF hi THEN v ELSE @[1], IF lo THEN v ELSE @[2]>>]
Ver(w) == IF w[1] = w[2] THEN w[1] ELSE -1
MCNext == \E t \in Threads :
  \/ \E c \in Cells : /\ Owner[c] = t /\ begun[c] < MaxVer /\ WBegin(t, c, 1)
                      /\ reg' = [reg EXCEPT ![t] = IF Wide /\ c + 1 \in Cells THEN <<mem[c + 1]>> ELSE <<0>>]
                      /\ UNCHANGED <<mem, nr>>
  \/ /\ act[t].o = "w" /\ Len(reg[t]) = 1
     /\ LET c == act[t].c
        IN IF Halves THEN Put(c, begun[c], TRUE, FALSE)
           ELSE IF Wide /\ c + 1 \in Cells
             THEN mem' = [mem EXCEPT ![c] = <<begun[c], begun[c]>>, ![c + 1] = reg[t][1]]
             ELSE Put(c, begun[c], TRUE, TRUE)
     /\ reg' = [reg EXCEPT ![t] = @ \o <<0>>] /\ UNCHANGED <<begun, done, seen, act, nr>>
  \/ /\ act[t].o = "w" /\ Len(reg[t]) = 2
     /\ mem' = (IF Halves THEN [mem EXCEPT ![act[t].c][2] = begun[act[t].c]] ELSE mem)
     /\ WEnd(t) /\ reg' = [reg EXCEPT ![t] = Empty] /\ UNCHANGED nr
  \/ /\ nr[t] < MaxReads
     /\ \E cs \in {<<c>> : c \in Cells} \cup {<<c, d>> : c \in Cells, d \in Cells} : RBegin(t, cs)
     /\ nr' = [nr EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mem, reg>>
  \/ /\ act[t].o = "r" /\ Len(reg[t]) < Len(act[t].c)
     /\ reg' = [reg EXCEPT ![t] = @ \o <<Ver(mem[act[t].c[Len(@) + 1]])>>]
     /\ UNCHANGED <<begun, done, seen, act, mem, nr>>
  \/ /\ act[t].o = "r" /\ Len(reg[t]) = Len(act[t].c)
     /\ REnd(t, reg[t]) /\ reg' = [reg EXCEPT ![t] = Empty] /\ UNCHANGED <<mem, nr>>
MCSpec == MCInit /\ [][MCNext]_mv
\* what was loaded is always acceptable
Admitted == \A t \in Threads : act[t].o = "r" /\ Len(reg[t]) = Len(act[t].c) => Whole(t, reg[t])
\* between writes a cell holds its newest completed version
Settled == \A c \in Cells : begun[c] = done[c] => mem[c] = <<done[c], done[c]>>
OneWriter == \A c \in Cells : begun[c] \in {done[c], done[c] + 1}
=============================================================================

----------------------------- MODULE MCRegister -----------------------------
(* Conc and Shared say the same of cells with one writer: whatever a read   *)
(* may return by some register history, the bounds of Conc admit, and the   *)
(* other way round for a single cell.                                       *)
EXTENDS Conc, Shared
CONSTANTS MaxVer, MaxReads, Owner
VARIABLES nr
mv == <<begun, done, seen, act, bel, nr>>
Own == <<1, 2>>
MCInit == ConcInit /\ SharedInit /\ nr = [t \in Threads |-> 0]
Reads == {<<c>> : c \in Cells} \cup {<<c, d>> : c \in Cells, d \in Cells}
MCNext == \E t \in Threads :
  \/ \E c \in Cells : /\ Owner[c] = t /\ begun[c] < MaxVer /\ WBegin(t, c, 1)
                      /\ SWBegin(t, c, begun[c] + 1) /\ UNCHANGED nr
  \/ WEnd(t) /\ SWEnd(t) /\ UNCHANGED nr
  \/ nr[t] < MaxReads /\ nr' = [nr EXCEPT ![t] = @ + 1] /\ \E cs \in Reads : RBegin(t, cs) /\ SRBegin(t, cs)
  \/ /\ act[t].o = "r"
     /\ \E vs \in {s.op[t].got : s \in bel} : (\A i \in DOMAIN vs : vs[i] # Pending) /\ REnd(t, vs) /\ SREnd(t, vs)
     /\ UNCHANGED nr
MCSpec == MCInit /\ [][MCNext]_mv
\* two reads of one cell within one access may come in either order in Shared only
Twice(t) == Len(act[t].c) = 2 /\ act[t].c[1] = act[t].c[2]
Admitted == \A t \in Threads : act[t].o = "r" /\ ~Twice(t) =>
  \A s \in bel : (\A i \in DOMAIN s.op[t].got : s.op[t].got[i] # Pending) => Whole(t, s.op[t].got)
Complete == \A t \in Threads : act[t].o = "r" /\ Len(act[t].c) = 1 =>
  \A v \in 0..MaxVer : Whole(t, <<v>>) => \E s \in bel : s.op[t].got = <<v>>
Explains == bel # {}
=============================================================================

------------------------------- MODULE MCCopy ------------------------------
(* Delay lines as plain values (C37): every interleaving of use, copying,   *)
(* changing places and buffer swaps of two lines over one memory, beside an *)
(* implementation.  "value": a line is its view and its position.  Wrong    *)
(* designs: "alias": a copy refers to the position of its original;         *)
(* "reset": a copy starts at the front; "fetch": a line keeps the sample it *)
(* will hand out next, taken when it advances.                              *)
EXTENDS Dev
CONSTANTS Design, N, Vals, Steps
VARIABLES pos,   \* box -> position
          box,   \* line -> its box
          nxt,   \* line -> sample kept ("fetch")
          n
cv == <<mem, dev, mode, ex, pos, box, nxt, n>>
Regions == {<<b, m>> \in (0..(N - 1)) \X (1..N) : b + m <= N}
CInit == /\ mem = [j \in 1..N |-> 0] /\ mode = "i" /\ ex = TRUE /\ n = 0
         /\ \E q \in [Devs -> Regions] :
              dev = [d \in Devs |-> [NoDev EXCEPT !.t = "dl", !.b = q[d][1], !.n = q[d][2]]]
         /\ pos = [d \in Devs |-> 0] /\ box = [d \in Devs |-> d] /\ nxt = [d \in Devs |-> 0]
\* what the implementation reads
Here(d) == IF Design = "fetch" THEN nxt[d] ELSE mem[dev[d].b + (pos[box[d]] % dev[d].n) + 1]
Bump(d) == pos' = [pos EXCEPT ![box[d]] = IF @ >= dev[d].n - 1 THEN 0 ELSE @ + 1]
Fetch(d) == nxt' = [nxt EXCEPT ![d] = mem'[dev'[d].b + dev'[d].i + 1]]
CNext ==
  /\ n < Steps /\ n' = n + 1
  /\ \E d \in Devs :
       \/ \E v \in Vals : WriteAdv(d, v) /\ Bump(d) /\ Fetch(d) /\ box' = box
       \/ Advance(d) /\ Bump(d) /\ Fetch(d) /\ box' = box
       \/ \E e \in Devs \ {d} :
            \/ /\ CopyDev(d, e)
               /\ IF Design = "alias" THEN box' = [box EXCEPT ![d] = box[e]] /\ pos' = pos
                  ELSE box' = box /\ pos' = [pos EXCEPT ![box[d]] = IF Design = "reset" THEN 0 ELSE pos[box[e]]]
               /\ nxt' = [nxt EXCEPT ![d] = nxt[e]]
            \/ Swap(d, e) /\ box' = [box EXCEPT ![d] = box[e], ![e] = box[d]] /\ pos' = pos
               /\ nxt' = [nxt EXCEPT ![d] = nxt[e], ![e] = nxt[d]]
       \/ \E q \in Regions :
            /\ Change(d, q[1], q[2]) /\ box' = box
            /\ pos' = [pos EXCEPT ![box[d]] = IF @ >= q[2] THEN 0 ELSE @] /\ Fetch(d)
CSpec == CInit /\ [][CNext]_cv
\* the implementation agrees with the law: the reading is allowed
Agrees == \A d \in Devs : Here(d) = At(dev[d], 0)
\* laws of values: using one line never moves another; a copy is equal
Own == [][\A d \in Devs : dev'[d] # dev[d] =>
           \/ \A e \in Devs \ {d} : dev'[e] = dev[e]
           \/ \E e \in Devs \ {d} : dev'[d] = dev[e] /\ dev'[e] = dev[d]]_cv
=============================================================================

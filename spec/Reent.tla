------------------------------- MODULE Reent --------------------------------
(* Objects of the library used side by side (C35).  An object is known by   *)
(* its making - what it was created from and which calls it will get - and  *)
(* answers its n-th call as every object of that making does, whatever runs *)
(* between its calls, in the middle of them (an interrupt) or at the same   *)
(* time on another thread.                                                  *)
EXTENDS Base, TLC
VARIABLES ob,    \* sequence of [d: making, n: calls answered, in: calls begun and unanswered]
          memo   \* <<making, n>> -> answer to the n-th call, as far as known
rvars == <<ob, memo>>
ReentInit == ob = <<>> /\ memo = <<>>
New(d) == ob' = Append(ob, [d |-> d, n |-> 0, in |-> 0]) /\ UNCHANGED memo
\* other objects come, are called and go
Crowd == UNCHANGED rvars
\* k calls, one after the other
Begin(i, k) == /\ i \in DOMAIN ob /\ ob[i].in = 0 /\ k >= 1
               /\ ob' = [ob EXCEPT ![i].in = k] /\ UNCHANGED memo
Known(key, v) == IF key \in DOMAIN memo THEN memo[key] = v ELSE TRUE
Learn(key, v) == memo' = IF key \in DOMAIN memo THEN memo ELSE (key :> v) @@ memo
End(i, v) == /\ i \in DOMAIN ob /\ ob[i].in > 0
             /\ LET key == <<ob[i].d, ob[i].n + 1>> IN Known(key, v) /\ Learn(key, v)
             /\ ob' = [ob EXCEPT ![i].n = @ + 1, ![i].in = @ - 1]
\* the memory of an object between calls is determined in the same way
Memory(i, v) == /\ i \in DOMAIN ob /\ ob[i].in = 0
                /\ LET key == <<ob[i].d, -1 - ob[i].n>> IN Known(key, v) /\ Learn(key, v)
                /\ UNCHANGED ob
=============================================================================

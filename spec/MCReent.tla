------------------------------ MODULE MCReent -------------------------------
(* Ways of writing a library: where a call keeps intermediate results.      *)
(* "own": with the call; "static": in one place for all; "cache": the last  *)
(* argument and its result are remembered for all; "count": results depend  *)
(* on how often anything was called; "lazy": a table is filled by the first *)
(* call that needs it.  Only the first is right (and "lazy" only if every   *)
(* call finds the table filled: "filled").                                  *)
EXTENDS Reent
CONSTANTS Design, MaxN
Makings == <<1, 2, 1>>
VARIABLES pc, own, shared, key, val, cnt, tab, half, bad
mvars == <<rvars, pc, own, shared, key, val, cnt, tab, half, bad>>
Objs == DOMAIN Makings
F(x) == 3 * x + 1
Arg(i) == 10 * Makings[i] + ob[i].n
MCInit == /\ ob = [i \in Objs |-> [d |-> Makings[i], n |-> 0, in |-> 0]] /\ memo = <<>>
          /\ pc = [i \in Objs |-> 0] /\ own = [i \in Objs |-> 0]
          /\ shared = 0 /\ key = 0 /\ val = 0 /\ cnt = 0 /\ bad = FALSE
          /\ tab = (IF Design = "filled" THEN 1 ELSE 0) /\ half = 0
Goto(i, p) == pc' = [pc EXCEPT ![i] = p]
Answer(i, v) == /\ Goto(i, 0)
                /\ LET k == <<ob[i].d, ob[i].n + 1>>
                   IN IF Known(k, v) THEN End(i, v) /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED rvars
Call(i) == /\ pc[i] = 0 /\ ob[i].n < MaxN /\ Begin(i, 1) /\ Goto(i, 1)
           /\ UNCHANGED <<own, shared, key, val, cnt, tab, half, bad>>
Micro(i) ==
  \/ /\ Design = "own" /\ pc[i] = 1 /\ own' = [own EXCEPT ![i] = Arg(i)] /\ Goto(i, 2)
     /\ UNCHANGED <<rvars, shared, key, val, cnt, tab, half, bad>>
  \/ /\ Design = "own" /\ pc[i] = 2 /\ Answer(i, F(own[i]))
     /\ UNCHANGED <<own, shared, key, val, cnt, tab, half>>
  \/ /\ Design = "static" /\ pc[i] = 1 /\ shared' = Arg(i) /\ Goto(i, 2)
     /\ UNCHANGED <<rvars, own, key, val, cnt, tab, half, bad>>
  \/ /\ Design = "static" /\ pc[i] = 2 /\ Answer(i, F(shared))
     /\ UNCHANGED <<own, shared, key, val, cnt, tab, half>>
  \/ /\ Design = "cache" /\ pc[i] = 1 /\ key = Arg(i) /\ Answer(i, val)
     /\ UNCHANGED <<own, shared, key, val, cnt, tab, half>>
  \/ /\ Design = "cache" /\ pc[i] = 1 /\ key # Arg(i) /\ val' = F(Arg(i)) /\ Goto(i, 2)
     /\ UNCHANGED <<rvars, own, shared, key, cnt, tab, half, bad>>
  \/ /\ Design = "cache" /\ pc[i] = 2 /\ key' = Arg(i) /\ Answer(i, F(Arg(i)))
     /\ UNCHANGED <<own, shared, val, cnt, tab, half>>
  \/ /\ Design = "count" /\ pc[i] = 1 /\ cnt' = cnt + 1 /\ Answer(i, F(Arg(i)) + cnt)
     /\ UNCHANGED <<own, shared, key, val, tab, half>>
  \* the table is filled in two steps, and marked as filled in the first
  \/ /\ Design \in {"lazy", "filled"} /\ pc[i] = 1 /\ tab = 0 /\ tab' = 1 /\ Goto(i, 2)
     /\ UNCHANGED <<rvars, own, shared, key, val, cnt, half, bad>>
  \/ /\ Design \in {"lazy", "filled"} /\ pc[i] = 2 /\ half' = 1 /\ Goto(i, 1)
     /\ UNCHANGED <<rvars, own, shared, key, val, cnt, tab, bad>>
  \/ /\ Design \in {"lazy", "filled"} /\ pc[i] = 1 /\ tab = 1
     /\ Answer(i, IF half = 1 \/ Design = "filled" THEN F(Arg(i)) ELSE 0)
     /\ UNCHANGED <<own, shared, key, val, cnt, tab, half>>
\* any object may be called while another is in a call (threads, interrupts)
MCNext == ~bad /\ \E i \in Objs : Call(i) \/ Micro(i)
MCSpec == MCInit /\ [][MCNext]_mvars
Alike == ~bad
Answers == \A k \in DOMAIN memo : memo[k] = F(10 * k[1] + k[2] - 1)
=============================================================================

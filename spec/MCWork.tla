------------------------------- MODULE MCWork -------------------------------
(* Ways of finding the cell of a signed index, advancing and swapping, with *)
(* the instructions they take.  "mod": one division; "laps": one addition   *)
(* per lap; "walk": cell by cell; "clear": a swap that sweeps the buffer;   *)
(* "grow": a call that goes through what earlier calls left behind.         *)
EXTENDS Work
CONSTANTS Design, MaxLen, MaxIdx, MaxCalls
VARIABLES n, idx, cur, cost, calls, phase, worst
wv == <<base, n, idx, cur, cost, calls, phase, worst>>
WInit == /\ WorkInit /\ n = 1 /\ idx = 0 /\ cur = 0 /\ cost = 0 /\ calls = 0 /\ phase = "plain" /\ worst = 0
\* phases: plain (reference call about to begin), run, done (answer), ready
Start == /\ phase = "ready" /\ calls < MaxCalls
         /\ \E m \in 1..MaxLen, i \in (-MaxIdx)..MaxIdx : n' = m /\ idx' = i /\ cur' = i
         /\ cost' = 0 /\ calls' = calls + 1 /\ phase' = "run" /\ UNCHANGED <<base, worst>>
Plain == /\ phase = "plain" /\ phase' = "run" /\ calls' = calls + 1 /\ UNCHANGED <<base, n, idx, cur, cost, worst>>
Tick == cost' = cost + 1
InRange == cur >= 0 /\ cur < n
Run ==
  /\ phase = "run" /\ Tick /\ UNCHANGED <<base, n, idx, calls, worst>>
  /\ \/ /\ Design = "mod" /\ cur' = cur % n /\ phase' = "done"
     \/ /\ Design = "laps"
        /\ IF InRange THEN cur' = cur /\ phase' = "done"
           ELSE cur' = (IF cur < 0 THEN cur + n ELSE cur - n) /\ phase' = phase
     \/ /\ Design = "walk"
        /\ IF cost >= idx % n THEN cur' = idx % n /\ phase' = "done" ELSE UNCHANGED <<cur, phase>>
     \/ /\ Design = "clear"
        /\ IF cost >= n THEN cur' = idx % n /\ phase' = "done" ELSE UNCHANGED <<cur, phase>>
     \/ /\ Design = "grow"
        /\ IF cost >= calls THEN cur' = idx % n /\ phase' = "done" ELSE UNCHANGED <<cur, phase>>
\* every design is right about the cell; the law is about the work
Right == phase = "done" => cur = idx % n
Done == /\ phase = "done" /\ phase' = "ready" /\ UNCHANGED <<n, idx, cur, cost, calls>>
        /\ IF "op" \notin DOMAIN base THEN Ref("op", cost) /\ worst' = worst
           ELSE /\ worst' = IF ENABLED Call("op", cost) THEN worst ELSE cost
                /\ base' = base
WNext == Plain \/ Start \/ Run \/ Done
WSpec == WInit /\ [][WNext]_wv
Bounded == worst = 0
=============================================================================

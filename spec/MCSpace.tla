------------------------------- MODULE MCSpace ------------------------------
(* Ways of summing over a window of cells, with the memory they take.       *)
(* "flat": one loop and fixed locals.  Wrong: "recursive": one frame per    *)
(* cell; "scratch": a copy of the buffer on the stack; "boxed": a copy on   *)
(* the heap; "again": a frame per lap an index lies outside; "late": a      *)
(* block every so many calls.                                               *)
EXTENDS Space
CONSTANTS Design, MaxLen, MaxIdx, MaxCalls, Often
VARIABLES phase, n, idx, left, sp, low, blocks, calls, bad
sv == <<base, phase, n, idx, left, sp, low, blocks, calls, bad>>
Frame == 1
SInit == /\ SpaceInit /\ phase = "idle" /\ n = 1 /\ idx = 0 /\ left = 0 /\ sp = 0 /\ low = 0
         /\ blocks = 0 /\ calls = 0 /\ bad = FALSE
\* the plain calls come first
Call0 == /\ phase = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
         /\ \E m \in (IF base = <<>> THEN {1} ELSE 1..MaxLen), i \in (IF base = <<>> THEN {0} ELSE 0..MaxIdx) :
              n' = m /\ idx' = i
         /\ left' = n' /\ sp' = Frame /\ low' = Frame /\ phase' = "run"
         /\ blocks' = 0 /\ UNCHANGED <<base, bad>>
Push(k) == sp' = sp + k /\ low' = Max2(low, sp + k)
Run == /\ phase = "run" /\ UNCHANGED <<base, n, idx, calls, bad>>
       /\ \/ /\ Design = "flat" /\ left' = Max2(left - 1, 0) /\ phase' = (IF left = 0 THEN "ret" ELSE phase)
             /\ UNCHANGED <<sp, low, blocks>>
          \/ /\ Design = "recursive" /\ UNCHANGED blocks
             /\ IF left = 0 THEN phase' = "ret" /\ UNCHANGED <<left, sp, low>>
                ELSE left' = left - 1 /\ Push(Frame) /\ phase' = phase
          \/ /\ Design = "again" /\ UNCHANGED <<blocks, left>>
             /\ IF sp > idx \div n THEN phase' = "ret" /\ UNCHANGED <<sp, low>>
                ELSE Push(Frame) /\ phase' = phase
          \/ /\ Design = "scratch" /\ Push(n) /\ phase' = "ret" /\ UNCHANGED <<left, blocks>>
          \/ /\ Design = "boxed" /\ blocks' = (IF n > 1 THEN 1 ELSE 0) /\ phase' = "ret" /\ UNCHANGED <<left, sp, low>>
          \/ /\ Design = "late" /\ blocks' = (IF calls % Often = 0 THEN 1 ELSE 0) /\ phase' = "ret" /\ UNCHANGED <<left, sp, low>>
Ret == /\ phase = "ret" /\ phase' = "idle" /\ sp' = 0 /\ UNCHANGED <<n, idx, left, low, blocks, calls>>
       /\ IF base = <<>> THEN Plain("op", low, blocks) /\ bad' = bad
          ELSE bad' = (bad \/ ~ENABLED Room("op", low, blocks)) /\ base' = base
SNext == Call0 \/ Run \/ Ret
SSpec == SInit /\ [][SNext]_sv
Bounded == ~bad
Balanced == phase = "idle" => sp = 0
=============================================================================

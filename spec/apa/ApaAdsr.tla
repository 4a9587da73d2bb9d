------------------------------ MODULE ApaAdsr -------------------------------
(* Unbounded companion of MCAdsr: for every resolution K of the level and T   *)
(* of the progress, every slope, and every history of gates and settings, the *)
(* level stays in 0..K, a release never rises, a stage follows only the one    *)
(* before it, and the envelope comes to rest within T ticks of a release.      *)
EXTENDS Integers
CONSTANT
  \* @type: Int;
  K,
  \* @type: Int;
  T
VARIABLES
  \* @type: Str;
  st,
  \* @type: Int;
  p,      \* progress, 0..T
  \* @type: Int;
  v,      \* last output
  \* @type: Int;
  sus,
  \* @type: Int;
  top,    \* where the release began
  \* @type: Bool;
  good,   \* the last step kept its law
  \* @type: Int;
  left    \* ticks a release may still take
CInit == K \in Nat /\ T \in Nat /\ K > 0 /\ T > 0
Init == st = "idle" /\ p = 0 /\ v = 0 /\ sus \in Nat /\ sus <= K /\ top = 0 /\ good = TRUE /\ left = 0
On == /\ st' = (IF st \in {"idle", "attack", "release"} THEN "attack" ELSE st)
      /\ p' = (IF st \in {"idle", "attack", "release"} THEN 0 ELSE p)
      /\ good' = TRUE /\ UNCHANGED <<v, sus, top, left>>
Off == /\ IF st \in {"attack", "decay", "sustain"}
            THEN st' = "release" /\ p' = 0 /\ top' = v /\ left' = T
            ELSE UNCHANGED <<st, p, top, left>>
       /\ good' = TRUE /\ UNCHANGED <<v, sus>>
SetSus == sus' \in Nat /\ sus' <= K /\ good' = TRUE /\ UNCHANGED <<st, p, v, top, left>>
\* progress by any amount; the curve of a stage lies between its ends
Tick ==
  /\ UNCHANGED <<sus, top>>
  /\ \/ st = "idle" /\ v' = 0 /\ good' = TRUE /\ UNCHANGED <<st, p, left>>
     \/ st = "sustain" /\ v' = sus /\ good' = TRUE /\ UNCHANGED <<st, p, left>>
     \/ /\ st \in {"attack", "decay", "release"}
        /\ \E d \in Nat : d > 0 /\ LET q == IF p + d > T THEN T ELSE p + d IN
           /\ v' \in Nat
           /\ \/ st = "attack" /\ v' <= K
              \/ st = "decay" /\ v' <= K /\ v' >= sus
              \/ st = "release" /\ v' <= top /\ (q = T => v' = 0)
           /\ st' = (IF q < T THEN st ELSE IF st = "attack" THEN "decay" ELSE IF st = "decay" THEN "sustain" ELSE "idle")
           /\ p' = (IF q < T THEN q ELSE 0)
           /\ left' = (IF st = "release" THEN left - 1 ELSE left)
           /\ good' = (st = "release" => v' <= top)
Next == On \/ Off \/ SetSus \/ Tick
Stages == {"idle", "attack", "decay", "sustain", "release"}
IndInv == /\ st \in Stages /\ v >= 0 /\ v <= K /\ sus >= 0 /\ sus <= K /\ top >= 0 /\ top <= K /\ good
          /\ p >= 0 /\ p < T
          \* a release that has progressed p has at most T - p ticks to go
          /\ (st = "release" => left >= T - p)
IndInit == /\ st \in Stages /\ p \in Int /\ v \in Int /\ sus \in Int /\ top \in Int /\ good \in BOOLEAN /\ left \in Int
           /\ IndInv
\* wrong: the release begins at the sustain level, whatever was heard
OffSus == /\ st = "attack" /\ st' = "release" /\ p' = 0 /\ top' = sus /\ left' = T /\ v' \in Nat /\ v' <= sus
          /\ good' = (v' <= v) /\ UNCHANGED sus
\* wrong: a stage may last for ever
TickStuck == st = "release" /\ left' = left - 1 /\ good' = TRUE /\ UNCHANGED <<st, p, v, sus, top>>
NextSus == Next \/ OffSus
NextStuck == Next \/ TickStuck
=============================================================================

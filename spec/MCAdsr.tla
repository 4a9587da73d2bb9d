------------------------------- MODULE MCAdsr -------------------------------
(* The ideal envelope (slope 1, exact arithmetic) satisfies every aspect of *)
(* Adsr in every reachable state, and has the properties a player relies    *)
(* on; outputs 1/8 off are rejected whenever the progress is known.        *)
EXTENDS Adsr
CONSTANTS Na, Nd, Nr, Budget
VARIABLES k,        \* ticks spent in the stage
          known,    \* FALSE after a note-on from decay, sustain or release
          left,     \* gates and settings still to come
          hist      \* the last two outputs
mv == <<st, r, k, known, left, hist>>
Half == One \div 2
SusSet == {<<0, 0>>, <<Half, 0>>, <<One \div 4, 0>>}
MCInit ==
  /\ st = "idle" /\ k = 0 /\ known = TRUE /\ left = Budget /\ hist = <<0, 0>>
  /\ \E u \in SusSet :
       r = [NoEnv EXCEPT !.sr = 1024, !.a = Inc(Na * 64, 1024), !.d = Inc(Nd * 64, 1024),
                         !.r = Inc(Nr * 64, 1024), !.sus = u]
N == IF st = "attack" THEN Na ELSE IF st = "decay" THEN Nd ELSE Nr
Ends == k + 1 >= N
Ideal ==
  CASE st = "idle" -> 0
    [] st = "sustain" -> r.sus[1]
    [] st = "attack" -> IF Ends THEN One ELSE (((k + 1) * (One \div 64)) \div N) * 64
    [] st = "decay" -> IF Ends \/ r.sus[1] = One THEN r.sus[1]
                       ELSE r.sus[1] + ((((One - r.sus[1]) \div 64) * (N - k - 1)) \div N) * 64
    [] st = "release" -> IF Ends \/ r.lev[1] = 0 THEN 0 ELSE (((r.lev[1] \div 64) * (N - k - 1)) \div N) * 64
NextSt ==
  CASE st = "attack" /\ Ends -> "decay"
    [] st = "decay" /\ Ideal = r.sus[1] -> "sustain"
    [] st = "release" /\ Ideal = 0 -> "idle"
    [] OTHER -> st
Obs(x, s) == Tick(1, <<x, 0>>, <<x, 0>>, ZeroL, ZeroL, <<x, 0>>, <<x, 0>>, s)
DoTick == /\ Obs(Ideal, NextSt)
          /\ hist' = <<hist[2], Ideal>>
          /\ k' = IF NextSt = st THEN Min2(k + 1, N) ELSE 0
          /\ known' = (known \/ NextSt # st) /\ UNCHANGED left
Spend == left > 0 /\ left' = left - 1
DoOn == /\ Spend /\ On("attack") /\ UNCHANGED hist
        /\ IF st \in {"idle", "attack"} THEN k' = 0 /\ known' = TRUE
           ELSE k' \in 0..(Na - 1) /\ known' = FALSE
DoOff == /\ Spend /\ Off(IF st \in {"attack", "decay", "sustain"} THEN "release" ELSE st, TRUE) /\ UNCHANGED hist
         /\ IF st \in {"attack", "decay", "sustain"} THEN k' = 0 /\ known' = TRUE ELSE UNCHANGED <<k, known>>
DoRst == Spend /\ Reset("idle") /\ k' = 0 /\ known' = TRUE /\ UNCHANGED hist
DoSus == Spend /\ \E u \in SusSet : SetSus(u, st) /\ UNCHANGED <<k, known, hist>>
MCNext == DoTick \/ DoOn \/ DoOff \/ DoRst \/ DoSus
MCSpec == MCInit /\ [][MCNext]_mv /\ WF_mv(DoTick)

\* every stage offers its tick: the ideal behaviour is never rejected
IdealAccepted == ENABLED DoTick
FarRejected == (known /\ st # "none") =>
  /\ ~ENABLED Obs(Ideal + One \div 8, NextSt)
  /\ Ideal >= One \div 8 => ~ENABLED Obs(Ideal - One \div 8, NextSt)
StageRejected == \A s \in {"idle", "attack", "decay", "sustain", "release"} \ {NextSt} : ~ENABLED Obs(Ideal, s)
LateRejected == (known /\ k + 1 < N /\ st \in {"attack", "decay"} /\ N > 3 /\ k = 0) =>
  ~ENABLED Obs(IF st = "attack" THEN One ELSE r.sus[1], IF st = "attack" THEN "decay" ELSE "sustain")
Levels == /\ r.lev[1] \in 0..One /\ hist[2] \in 0..One
          /\ st = "release" => (hist[2] = r.last[1] \/ r.last = ZeroL)
\* left alone, the envelope comes to rest, and a gate-on rests at sustain
Rest == <>[](st \in {"idle", "sustain"})
RestLevel == []<>(st = "idle" \/ (st = "sustain" => r.last = r.sus \/ ENABLED DoTick))
=============================================================================

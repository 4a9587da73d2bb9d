------------------------------ MODULE ApaDelay ------------------------------
(* Unbounded companion of MCDev: a delay line of any length, any number of   *)
(* steps.  C is an arbitrary cell, D an arbitrary delay, so what holds for    *)
(* them holds for all.  stamp is the time of the write that cell C shows      *)
(* (what it held at first counts as written at -n .. -1).                    *)
EXTENDS Integers
CONSTANT
  \* @type: Int;
  C,
  \* @type: Int;
  D
VARIABLES
  \* @type: Int;
  n,       \* length
  \* @type: Int;
  index,
  \* @type: Int;
  t,       \* writes so far
  \* @type: Int;
  stamp,
  \* @type: Bool;
  own      \* on the buffer it started on
CInit == C \in Nat /\ D \in Nat
Init == /\ n \in Nat /\ n > C /\ n > D
        /\ index = 0 /\ t = 0 /\ stamp = C - n /\ own = TRUE
\* write and advance
Step == /\ stamp' = (IF index = C THEN t ELSE stamp)
        /\ index' = (IF index = n - 1 THEN 0 ELSE index + 1)
        /\ t' = t + 1 /\ UNCHANGED <<n, own>>
\* change to a buffer of any length: the position stays inside
Swap == /\ n' \in Nat /\ n' > 0
        /\ index' = (IF index >= n' THEN 0 ELSE index)
        /\ own' = FALSE /\ UNCHANGED <<t, stamp>>
Next == Step \/ Swap
Inside == index >= 0 /\ index < n
Stamps == own => stamp = (IF C < index THEN t - (index - C) ELSE t - (index - C) - n)
\* the cell D steps back (0: the one about to be overwritten is n back)
Back(k) == IF index - k >= 0 THEN index - k ELSE index - k + n
\* what a tap finds: the write D + 1 steps ago; what the line puts out: the oldest
TapLaw == (own /\ D < n /\ Back(D + 1) = C) => stamp = t - (D + 1)
OutLaw == (own /\ index = C) => stamp = t - n
IndInv == /\ n > 0 /\ Inside /\ Stamps /\ TapLaw /\ OutLaw /\ (own => n > C /\ n > D)
IndInit == /\ n \in Int /\ index \in Int /\ t \in Int /\ stamp \in Int /\ own \in BOOLEAN
           /\ IndInv
\* a wrong design: the position survives a shorter buffer
SwapKeep == /\ n' \in Nat /\ n' > 0 /\ own' = FALSE /\ UNCHANGED <<index, t, stamp>>
\* and one that turns around one cell late
StepLate == /\ stamp' = (IF index = C THEN t ELSE stamp)
            /\ index' = (IF index = n THEN 0 ELSE index + 1)
            /\ t' = t + 1 /\ UNCHANGED <<n, own>>
NextKeep == Next \/ SwapKeep
NextLate == Next \/ StepLate
=============================================================================

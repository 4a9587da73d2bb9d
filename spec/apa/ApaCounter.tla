----------------------------- MODULE ApaCounter -----------------------------
(* Unbounded companion of MCOsc: after any history of readings, settings and  *)
(* shifts the counter is the exact sum of the steps taken modulo 2^32, and a  *)
(* reading is that sum plus the shift in force: no history drifts.  run is    *)
(* the closed form used for n equal readings at once (RunRaw): anchor plus    *)
(* accumulated steps.                                                       *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  c,
  \* @type: Int;
  total,   \* sum of all steps taken
  \* @type: Int;
  step,
  \* @type: Int;
  shift,
  \* @type: Int;
  r,       \* last reading
  \* @type: Int;
  want,    \* what it had to be, before the modulus
  \* @type: Int;
  anchor,  \* counter where the current run of equal steps began
  \* @type: Int;
  run      \* steps accumulated in it
M == 4294967296
Half == 2147483648
Init == /\ c = 0 /\ total = 0 /\ step = 0 /\ shift = 0 /\ r = 0 /\ want = 0 /\ anchor = 0 /\ run = 0
SetStep == /\ step' \in Nat /\ step' <= Half
           /\ anchor' = c /\ run' = 0
           /\ UNCHANGED <<c, total, shift, r, want>>
SetShift == /\ shift' \in Nat /\ shift' < M /\ UNCHANGED <<c, total, step, r, want, anchor, run>>
Read == /\ c' = (c + step) % M /\ total' = total + step
        /\ r' = (c' + shift) % M /\ want' = total + step + shift
        /\ run' = run + step
        /\ UNCHANGED <<step, shift, anchor>>
Next == SetStep \/ SetShift \/ Read
Range == c >= 0 /\ c < M /\ r >= 0 /\ r < M /\ step >= 0 /\ step <= Half /\ shift >= 0 /\ shift < M
IndInv == /\ Range /\ total >= 0 /\ run >= 0 /\ anchor >= 0 /\ anchor < M
          /\ c = total % M /\ r = want % M
          /\ c = (anchor + run) % M
IndInit == /\ c \in Int /\ total \in Int /\ step \in Int /\ shift \in Int /\ r \in Int /\ want \in Int
           /\ anchor \in Int /\ run \in Int /\ IndInv
\* wrong: the shift is added to the counter itself
ReadKick == /\ c' = (c + step + shift) % M /\ total' = total + step
            /\ r' = c' /\ want' = total + step + shift
            /\ run' = run + step /\ UNCHANGED <<step, shift, anchor>>
\* wrong: saturates instead of wrapping
ReadSat == /\ c' = (IF c + step >= M THEN M - 1 ELSE c + step) /\ total' = total + step
           /\ r' = (c' + shift) % M /\ want' = total + step + shift
           /\ run' = run + step /\ UNCHANGED <<step, shift, anchor>>
NextKick == Next \/ ReadKick
NextSat == Next \/ ReadSat
=============================================================================

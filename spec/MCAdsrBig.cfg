SPECIFICATION MCSpec
CONSTANTS
  Aspects = {"gate", "range", "shape", "release"}
  Na = 5
  Nd = 4
  Nr = 3
  Budget = 7
INVARIANTS IdealAccepted FarRejected StageRejected LateRejected Levels
PROPERTIES Rest
CHECK_DEADLOCK FALSE

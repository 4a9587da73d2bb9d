SPECIFICATION MCSpec
CONSTANTS
  Aspects = {"gate", "range", "shape", "release"}
  Na = 2
  Nd = 4
  Nr = 3
  Budget = 4
INVARIANTS IdealAccepted FarRejected StageRejected LateRejected Levels
PROPERTIES Rest
CHECK_DEADLOCK FALSE

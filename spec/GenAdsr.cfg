SPECIFICATION GenSpec
CONSTANTS
  Aspects = {"gate", "range", "shape", "release"}
  Na = 2
  Nd = 3
  Nr = 2
  Budget = 9
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "exp"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

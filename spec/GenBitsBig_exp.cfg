SPECIFICATION GenSpec
CONSTANTS
  Kind = "exp"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

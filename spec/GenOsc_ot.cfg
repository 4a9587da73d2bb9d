SPECIFICATION GenSpec
CONSTANTS
  Kind = "ot"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

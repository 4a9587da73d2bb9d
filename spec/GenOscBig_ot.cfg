SPECIFICATION GenSpec
CONSTANTS
  Kind = "ot"
  Depth = 5
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "cf"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

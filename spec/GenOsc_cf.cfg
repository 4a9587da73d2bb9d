SPECIFICATION GenSpec
CONSTANTS
  Kind = "cf"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

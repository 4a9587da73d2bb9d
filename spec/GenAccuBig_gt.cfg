SPECIFICATION GenSpec
CONSTANTS
  Kind = "gt"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "gt"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

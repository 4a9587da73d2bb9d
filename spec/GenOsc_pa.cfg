SPECIFICATION GenSpec
CONSTANTS
  Kind = "pa"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "pa"
  Depth = 5
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "lin"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

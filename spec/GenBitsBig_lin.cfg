SPECIFICATION GenSpec
CONSTANTS
  Kind = "lin"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

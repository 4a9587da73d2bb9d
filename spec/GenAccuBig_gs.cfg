SPECIFICATION GenSpec
CONSTANTS
  Kind = "gs"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "gs"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

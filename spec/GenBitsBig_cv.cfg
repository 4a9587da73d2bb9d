SPECIFICATION GenSpec
CONSTANTS
  Kind = "cv"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "cv"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Kind = "os"
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

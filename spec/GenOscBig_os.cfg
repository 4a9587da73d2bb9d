SPECIFICATION GenSpec
CONSTANTS
  Kind = "os"
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

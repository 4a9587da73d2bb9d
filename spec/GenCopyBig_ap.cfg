SPECIFICATION GenSpec
CONSTANTS
  Devs = {0, 1}
  T = "ap"
  Ways = {1}
  Depth = 5
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Devs = {0, 1}
  T = "ap"
  Ways = {1, 2}
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Filters = {0, 1}
  In = {0, 65536}
  Depth = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

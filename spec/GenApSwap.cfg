SPECIFICATION GenSpec
CONSTANTS
  Devs = {0}
  T = "ap"
  NS = {1, 2, 3}
  In = {0, 65536}
  Fbs = {}
  Dms = {}
  Swaps <- SomeSwaps
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

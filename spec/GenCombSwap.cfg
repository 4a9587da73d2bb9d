SPECIFICATION GenSpec
CONSTANTS
  Devs = {0}
  T = "comb"
  NS = {1, 2, 3}
  In = {0, 65536}
  Fbs = {64}
  Dms = {}
  Swaps <- SomeSwaps
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Devs = {0}
  T = "comb"
  NS = {1, 2}
  In = {0, 65536}
  Fbs <- FbSet
  Dms = {0, 64}
  Swaps <- NoSwaps
  Depth = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  Devs = {0}
  T = "ap"
  NS = {1, 2, 3}
  In <- InSet
  Fbs = {}
  Dms = {}
  Swaps <- NoSwaps
  Depth = 6
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

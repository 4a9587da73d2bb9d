SPECIFICATION MCSpec
CONSTANTS
  Devs = {0}
  T = "comb"
  NS = {1, 2, 3}
  Fbs <- FbSet
  Dms = {0, 128, 192}
  Len0 = 6
INVARIANTS HoldIsIteration Contained CombEq Bounded
CHECK_DEADLOCK FALSE

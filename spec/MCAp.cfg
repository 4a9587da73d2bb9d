SPECIFICATION MCSpec
CONSTANTS
  Devs = {0}
  T = "ap"
  NS = {1, 2, 3}
  Fbs = {128}
  Dms = {128}
  Len0 = 9
INVARIANTS HoldIsIteration Contained ApEq Bounded Exact
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Design = "cache"
  MaxN = 2
INVARIANTS Alike
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Design = "count"
  MaxN = 2
INVARIANTS Alike
CHECK_DEADLOCK FALSE

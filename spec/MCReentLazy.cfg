SPECIFICATION MCSpec
CONSTANTS
  Design = "lazy"
  MaxN = 2
INVARIANTS Alike
CHECK_DEADLOCK FALSE

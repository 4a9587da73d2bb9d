SPECIFICATION MCSpec
CONSTANTS
  Design = "static"
  MaxN = 2
INVARIANTS Alike
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Design = "filled"
  MaxN = 2
INVARIANTS Alike Answers
CHECK_DEADLOCK FALSE

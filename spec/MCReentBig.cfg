SPECIFICATION MCSpec
CONSTANTS
  Design = "own"
  MaxN = 6
INVARIANTS Alike Answers
CHECK_DEADLOCK FALSE

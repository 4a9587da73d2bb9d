SPECIFICATION MCSpec
CONSTANTS
  Design = "own"
  MaxN = 2
INVARIANTS Alike Answers
CHECK_DEADLOCK FALSE

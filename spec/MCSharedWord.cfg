SPECIFICATION MCSpec
CONSTANTS
  SCells = {1,2}
  SThreads = {1,2}
  Widest = 2
  MaxW = 1
  MaxR = 1
  Verify = FALSE
  Skip = FALSE
  Late = FALSE
INVARIANTS Explained Settled
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  SCells = {1,2}
  SThreads = {1,2}
  Widest = 2
  MaxW = 2
  MaxR = 2
  Verify = FALSE
  Skip = FALSE
  Late = FALSE
INVARIANTS Explained Settled
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Cells = {1,2}
  Threads = {1,2}
  SCells = {1,2}
  SThreads = {1,2}
  Widest = 2
  MaxVer = 2
  MaxReads = 1
  Owner <- Own
INVARIANTS Admitted Complete Explains
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  MaxVer = 1
  MaxReads = 1
  Halves = FALSE
  Wide = FALSE
  Owner <- Own3
  Threads = {1,2,3}
  Cells = {1,2,3}
INVARIANTS Admitted Settled OneWriter
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  MaxVer = 1
  MaxReads = 1
  Halves = TRUE
  Wide = FALSE
  Owner <- Own2
  Threads = {1,2}
  Cells = {1,2,3}
INVARIANTS Admitted Settled OneWriter
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Devs = {0}
  N = 5
  Vals = {0, 1}
  MaxHist = 5
INVARIANTS Contained Fifo TapsAddressHistory TapsWrap RunIsIteration
PROPERTIES IsQueue Frame
CHECK_DEADLOCK FALSE

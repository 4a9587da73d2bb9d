SPECIFICATION MCSpec
CONSTANTS
  Devs = {0}
  N = 4
  Vals = {0, 1}
  MaxHist = 4
INVARIANTS Contained Fifo TapsAddressHistory TapsWrap RunIsIteration
PROPERTIES IsQueue Frame
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  W = 7
  MaxN = 12
  Design = "code"
  Checks = FALSE
INVARIANTS Inside TapRight
CHECK_DEADLOCK FALSE

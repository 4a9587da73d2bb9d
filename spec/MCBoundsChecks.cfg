SPECIFICATION MSpec
CONSTANTS
  W = 6
  MaxN = 6
  Design = "code"
  Checks = TRUE
INVARIANTS Inside TapRight
CHECK_DEADLOCK FALSE

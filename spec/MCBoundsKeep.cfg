SPECIFICATION MSpec
CONSTANTS
  W = 6
  MaxN = 6
  Design = "keep"
  Checks = FALSE
INVARIANTS Inside TapRight
CHECK_DEADLOCK FALSE

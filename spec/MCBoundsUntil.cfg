SPECIFICATION MSpec
CONSTANTS
  W = 6
  MaxN = 6
  Design = "until"
  Checks = FALSE
INVARIANTS Inside TapRight
CHECK_DEADLOCK FALSE

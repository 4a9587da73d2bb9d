SPECIFICATION MSpec
CONSTANTS
  Design = "ahead"
  Steps = 4
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Design = "twice"
  Steps = 4
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE

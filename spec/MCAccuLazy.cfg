SPECIFICATION MSpec
CONSTANTS
  Design = "lazy"
  Steps = 4
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE

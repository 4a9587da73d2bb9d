SPECIFICATION MSpec
CONSTANTS
  Design = "adds"
  Steps = 4
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE

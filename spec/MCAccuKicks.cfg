SPECIFICATION MSpec
CONSTANTS
  Design = "kicks"
  Steps = 4
INVARIANTS NeverBad
CHECK_DEADLOCK FALSE

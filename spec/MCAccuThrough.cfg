SPECIFICATION MSpec
CONSTANTS
  Design = "through"
  Steps = 5
INVARIANTS NeverBad InStep Decided
CHECK_DEADLOCK FALSE

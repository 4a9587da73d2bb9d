SPECIFICATION MSpec
CONSTANTS
  Design = "through"
  Steps = 7
INVARIANTS NeverBad InStep Decided
CHECK_DEADLOCK FALSE

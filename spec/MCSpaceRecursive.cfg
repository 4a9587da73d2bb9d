SPECIFICATION SSpec
CONSTANTS
  Factor = 2
  Slack = 2
  Most = 100
  Words = 16
  MaxLen = 6
  MaxIdx = 30
  MaxCalls = 5
  Often = 4
  Design = "recursive"
INVARIANTS Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION WSpec
CONSTANTS
  Factor = 4
  Slack = 2
  Design = "mod"
  MaxLen = 24
  MaxIdx = 120
  MaxCalls = 4
INVARIANTS Right Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION WSpec
CONSTANTS
  Factor = 4
  Slack = 2
  Design = "grow"
  MaxLen = 2
  MaxIdx = 1
  MaxCalls = 12
INVARIANTS Right Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION WSpec
CONSTANTS
  Factor = 4
  Slack = 2
  Design = "walk"
  MaxLen = 12
  MaxIdx = 40
  MaxCalls = 3
INVARIANTS Right Bounded
CHECK_DEADLOCK FALSE

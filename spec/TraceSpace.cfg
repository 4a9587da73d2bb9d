SPECIFICATION TraceSpec
CONSTANTS
  Factor = 2
  Slack = 512
  Most = 16384
  Words = 16

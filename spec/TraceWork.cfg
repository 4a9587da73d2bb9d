SPECIFICATION TraceSpec
CONSTANTS
  Factor = 4
  Slack = 1000

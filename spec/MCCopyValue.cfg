SPECIFICATION CSpec
CONSTANTS
  Devs = {0, 1}
  Design = "value"
  N = 3
  Vals = {0,1}
  Steps = 5
INVARIANTS Contained Agrees
PROPERTIES Own
CHECK_DEADLOCK FALSE

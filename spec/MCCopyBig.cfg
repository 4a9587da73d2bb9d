SPECIFICATION CSpec
CONSTANTS
  Devs = {0, 1}
  Design = "value"
  N = 4
  Vals = {0,1}
  Steps = 6
INVARIANTS Contained Agrees
PROPERTIES Own
CHECK_DEADLOCK FALSE

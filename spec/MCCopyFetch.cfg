SPECIFICATION CSpec
CONSTANTS
  Devs = {0, 1}
  Design = "fetch"
  N = 3
  Vals = {0,1}
  Steps = 4
INVARIANTS Contained Agrees
PROPERTIES Own
CHECK_DEADLOCK FALSE

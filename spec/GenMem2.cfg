SPECIFICATION GenSpec
CONSTANTS
  Handles = {0, 1}
  N = 2
  Emitted = {"sub"}
  Vals = {0, 1}
VIEW View1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS
  N = 5
  MaxN = 4
  Kinds = {"dl", "comb", "ap"}
VIEW View1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

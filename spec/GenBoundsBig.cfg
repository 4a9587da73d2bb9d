SPECIFICATION GenSpec
CONSTANTS
  N = 9
  MaxN = 7
  Kinds = {"dl", "comb", "ap"}
VIEW View1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

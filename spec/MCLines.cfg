SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Bases = {0, 4194302}
  Vals = {0, 8}
  MaxHist = 4
INVARIANTS Same Contains Reads Only
CHECK_DEADLOCK FALSE

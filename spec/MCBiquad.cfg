SPECIFICATION MCSpec
CONSTANTS
  Filters = {0, 1}
  Depth = 4
  Sets = 0
INVARIANTS DirectForm Isolated Exactness
CHECK_DEADLOCK FALSE

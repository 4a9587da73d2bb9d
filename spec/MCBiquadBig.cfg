SPECIFICATION MCSpec
CONSTANTS
  Filters = {0, 1}
  Depth = 5
  Sets = 0
INVARIANTS DirectForm Isolated Exactness
CHECK_DEADLOCK FALSE

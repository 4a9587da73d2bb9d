SPECIFICATION MCSpec
CONSTANTS
  Handles = {0, 1}
  N = 3
  Vals = {0, 1}
INVARIANTS Contained NullErrs WrapAgree
PROPERTIES SubInside OneCell ErrNothing
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Filters = {0}
  Js = {3, 10, 41, 100, 170, 230, 255}
  Qs = {512, 1024, 2048, 8192}
  Gs = 0
INVARIANTS AcceptsIdeal IdealStable RejectsCorner RejectsQ RejectsGain RejectsDamage RejectsType
CHECK_DEADLOCK FALSE

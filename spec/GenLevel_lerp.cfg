SPECIFICATION GenSpec
CONSTANT Kind = "lerp"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

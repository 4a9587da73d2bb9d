SPECIFICATION GenSpec
CONSTANT Kind = "clip"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

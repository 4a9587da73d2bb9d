SPECIFICATION GenSpec
CONSTANT Kind = "pan"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

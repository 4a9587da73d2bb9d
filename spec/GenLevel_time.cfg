SPECIFICATION GenSpec
CONSTANT Kind = "time"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

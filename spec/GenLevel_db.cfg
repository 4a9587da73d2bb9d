SPECIFICATION GenSpec
CONSTANT Kind = "db"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

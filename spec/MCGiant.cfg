SPECIFICATION MCSpec
CONSTANT Lens = {1, 2, 3, 65537, 4194303, 4194304, 4194305, 12582912, 16777217, 268435457}
INVARIANTS Arith Witness Contains Outcome OneCell Child
CHECK_DEADLOCK FALSE

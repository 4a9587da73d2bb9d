SPECIFICATION MCSpec
INVARIANTS Accurate Monotone OddUpTo3 InI16 Saturates Line
CHECK_DEADLOCK FALSE

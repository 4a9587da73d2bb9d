SPECIFICATION MCSpec
CONSTANTS
  Exps <- ExpSet
  Mants <- MantSet
INVARIANTS Fields Idempotent Shrinks IdempotentE Arithmetic Ends ExpArithmetic
CHECK_DEADLOCK FALSE

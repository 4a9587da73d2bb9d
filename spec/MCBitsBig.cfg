SPECIFICATION MCSpec
CONSTANTS
  Exps <- ExpAll
  Mants <- MantSet
INVARIANTS Fields Idempotent Shrinks IdempotentE Arithmetic Ends ExpArithmetic
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
INVARIANTS OneOutcome SumsUp EqualPower Mirror SwapRejected InfFacts Doubling Total RoundSelf BackOk ClipTotal LerpClasses MulFacts
CHECK_DEADLOCK FALSE

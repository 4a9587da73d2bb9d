SPECIFICATION MCSpec
CONSTANTS
  Freqs <- FreqSet
  Rates <- RateSet
  Shifts <- ShiftSet
  Budget = 4
INVARIANTS PhaseIsSum RawDecided NormDecided CheckedDecided
PROPERTIES Separate
CHECK_DEADLOCK FALSE

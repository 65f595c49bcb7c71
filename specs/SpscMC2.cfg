CONSTANTS
  N = 4
  K = 7
  RelW = TRUE
  AcqW = TRUE
  RelR = TRUE
  AcqR = TRUE
  Batch = 3
SPECIFICATION Spec
INVARIANTS NoRace InOrder Bounded
CHECK_DEADLOCK FALSE

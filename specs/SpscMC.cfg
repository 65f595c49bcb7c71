CONSTANTS
  N = 3
  K = 6
  RelW = TRUE
  AcqW = TRUE
  RelR = TRUE
  AcqR = TRUE
  Batch = 2
SPECIFICATION Spec
INVARIANTS NoRace InOrder Bounded
CHECK_DEADLOCK FALSE

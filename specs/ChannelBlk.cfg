SPECIFICATION Spec
CONSTANTS
  Cap = 3
  N = 10
  Timeout = "inf"
INVARIANTS NoError Conserved
PROPERTY AllArrives
CHECK_DEADLOCK FALSE

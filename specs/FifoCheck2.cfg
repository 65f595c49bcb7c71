CONSTANTS
  Size = 12
  MaxMsgs = 5
  Lens = {0, 1, 2, 3, 4, 5, 7, 11}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE

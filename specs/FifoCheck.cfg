CONSTANTS
  Size = 7
  MaxMsgs = 4
  Lens = {0, 1, 2, 3, 6}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE

CONSTANTS B = 2 W = 2 L = 1 MaxLen = 5 MaxMsgs = 1
SPECIFICATION Spec
INVARIANTS InOrder Complete Held
CHECK_DEADLOCK FALSE

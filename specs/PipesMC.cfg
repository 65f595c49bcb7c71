SPECIFICATION Spec
CONSTANTS Depth = 6
 V = {0, 1, 2}
INVARIANTS Once Forwarded ChangesOnly Rate Triggers Pure
CONSTRAINT Lim
CHECK_DEADLOCK FALSE

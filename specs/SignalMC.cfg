SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 Tokens = {0, 1}
 MaxOps = 5
INVARIANT Exact
CHECK_DEADLOCK FALSE

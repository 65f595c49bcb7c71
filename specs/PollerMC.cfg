SPECIFICATION Spec
CONSTANTS P = {1, 2, 3, 4}
 Bad = {4}
 Depth = 99
 Swap = TRUE
 Reset = TRUE
INVARIANTS Refines Reported Polls
CHECK_DEADLOCK FALSE

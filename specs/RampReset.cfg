SPECIFICATION Spec
CONSTANTS VMax = 3 Range = 8 Fine = TRUE Changes = 3 Resets = TRUE
INVARIANTS SpeedOk AccOk NoOvershoot
PROPERTIES Arrives NotFaster SlowsDown
CHECK_DEADLOCK FALSE

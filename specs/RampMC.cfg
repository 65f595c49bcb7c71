SPECIFICATION Spec
CONSTANTS VMax = 4 Range = 12 Fine = TRUE Changes = 3 Resets = FALSE
INVARIANTS SpeedOk AccOk NoOvershoot
PROPERTY Arrives
CHECK_DEADLOCK FALSE

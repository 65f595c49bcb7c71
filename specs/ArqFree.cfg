SPECIFICATION LiveSpec
CONSTANTS SeqMax = 3 MaxMsg = 1 MaxLoss = 1 MaxDup = 0 MaxReset = 0 Cap = 2 Discipline = FALSE SimLen = 0
INVARIANTS ExactlyOnce
PROPERTY EventuallySettled
CHECK_DEADLOCK FALSE

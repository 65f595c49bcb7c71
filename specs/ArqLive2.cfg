SPECIFICATION LiveSpec
CONSTANTS SeqMax = 3 MaxMsg = 3 MaxLoss = 2 MaxDup = 0 MaxReset = 1 Cap = 2 Discipline = TRUE SimLen = 0
INVARIANTS ExactlyOnce
PROPERTY EventuallySettled
CHECK_DEADLOCK FALSE

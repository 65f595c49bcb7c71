SPECIFICATION Spec
CONSTANTS SeqMax = 63 MaxMsg = 12 MaxLoss = 5 MaxDup = 3 MaxReset = 2 Cap = 2 Discipline = TRUE SimLen = 40
INVARIANTS PrintHist ExactlyOnce SettledImpliesDelivered
CHECK_DEADLOCK FALSE

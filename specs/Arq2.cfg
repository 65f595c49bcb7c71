SPECIFICATION Spec
CONSTANTS SeqMax = 3 MaxMsg = 3 MaxLoss = 2 MaxDup = 1 MaxReset = 1 Cap = 2 Discipline = TRUE SimLen = 0
INVARIANTS ExactlyOnce SettledImpliesDelivered
VIEW view
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded

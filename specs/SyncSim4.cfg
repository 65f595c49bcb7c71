SPECIFICATION SimSpec
CONSTANTS NN = 4 UpOf <- U4 DnOf <- D4 NObj = 3 MaxWrite = 12 MaxReset = 3 MaxConn = 5 MaxChan = 4 SimLen = 50
INVARIANT Out
CHECK_DEADLOCK FALSE

SPECIFICATION SimSpec
CONSTANTS NN = 2 UpOf <- U2 DnOf <- D2 NObj = 3 MaxWrite = 12 MaxReset = 3 MaxConn = 5 MaxChan = 4 SimLen = 30
INVARIANT Out
CHECK_DEADLOCK FALSE

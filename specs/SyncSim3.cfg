SPECIFICATION SimSpec
CONSTANTS NN = 3 UpOf <- U3 DnOf <- D3 NObj = 3 MaxWrite = 12 MaxReset = 3 MaxConn = 5 MaxChan = 4 SimLen = 40
INVARIANT Out
CHECK_DEADLOCK FALSE

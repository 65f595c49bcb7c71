SPECIFICATION SimSpec
CONSTANTS NN = 3 UpOf <- UF DnOf <- DF NObj = 3 MaxWrite = 12 MaxReset = 3 MaxConn = 5 MaxChan = 4 SimLen = 40
INVARIANT Out
CHECK_DEADLOCK FALSE

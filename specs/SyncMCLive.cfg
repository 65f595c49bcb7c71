SPECIFICATION LiveSpec
CONSTANTS NN = 2 UpOf <- U2 DnOf <- D2 NObj = 1 MaxWrite = 2 MaxReset = 2 MaxConn = 2 MaxChan = 2
PROPERTY EventuallyQuiet
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

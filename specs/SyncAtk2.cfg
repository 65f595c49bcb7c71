SPECIFICATION AtkSpec
CONSTANTS NN = 3 UpOf <- U3 DnOf <- D3 NObj = 1 MaxWrite = 2 MaxReset = 1 MaxConn = 2 MaxChan = 2 MaxAtk = 3
INVARIANTS GoodEstablished GoodConverged
CONSTRAINT AtkBounded
CHECK_DEADLOCK FALSE

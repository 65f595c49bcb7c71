SPECIFICATION AtkSpec
CONSTANTS NN = 3 UpOf <- U3 DnOf <- D3 NObj = 1 MaxWrite = 1 MaxReset = 1 MaxConn = 2 MaxChan = 2 MaxAtk = 2
INVARIANTS GoodEstablished GoodConverged
CONSTRAINT AtkBounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NN = 3 UpOf <- U3 DnOf <- D3 NObj = 1 MaxWrite = 3 MaxReset = 2 MaxConn = 3 MaxChan = 2
INVARIANTS QuietEstablished Converged Genuine LastWins
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

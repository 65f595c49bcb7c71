SPECIFICATION Spec
CONSTANTS NN = 2 UpOf <- U2 DnOf <- D2 NObj = 2 MaxWrite = 3 MaxReset = 2 MaxConn = 2 MaxChan = 3
INVARIANTS QuietEstablished Converged Genuine LastWins
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

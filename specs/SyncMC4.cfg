SPECIFICATION Spec
CONSTANTS NN = 4 UpOf <- U4 DnOf <- D4 NObj = 1 MaxWrite = 2 MaxReset = 1 MaxConn = 3 MaxChan = 2
INVARIANTS QuietEstablished Converged Genuine LastWins
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NN = 3 UpOf <- UF DnOf <- DF NObj = 1 MaxWrite = 3 MaxReset = 1 MaxConn = 2 MaxChan = 2
INVARIANTS QuietEstablished Converged Genuine LastWins
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  SeqMod = 8
  MaxReq = 4
  MaxRestart = 2
  MaxTimeout = 3
  MaxFaults = 5
  Premature = TRUE
  Dup = TRUE
  Purge = FALSE
  Live = FALSE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer
CHECK_DEADLOCK FALSE
VIEW View

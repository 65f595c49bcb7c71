SPECIFICATION Spec
CONSTANTS
  SeqMod = 16
  MaxReq = 3
  MaxRestart = 2
  MaxTimeout = 3
  MaxFaults = 5
  Premature = FALSE
  Dup = FALSE
  Purge = TRUE
  Live = FALSE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer
CHECK_DEADLOCK FALSE
VIEW View

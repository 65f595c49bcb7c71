SPECIFICATION Spec
CONSTANTS
  SeqMod = 16
  MaxReq = 3
  MaxRestart = 1
  MaxTimeout = 2
  MaxFaults = 3
  Premature = TRUE
  Dup = TRUE
  Purge = FALSE
  Live = FALSE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer
CHECK_DEADLOCK FALSE
VIEW View

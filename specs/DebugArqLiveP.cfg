SPECIFICATION LiveSpec
CONSTANTS
  SeqMod = 16
  MaxReq = 2
  MaxRestart = 1
  MaxTimeout = 2
  MaxFaults = 3
  Premature = FALSE
  Dup = FALSE
  Purge = TRUE
  Live = TRUE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer
CHECK_DEADLOCK FALSE
PROPERTY Answered

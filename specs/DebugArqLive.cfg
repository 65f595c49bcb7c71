SPECIFICATION LiveSpec
CONSTANTS
  SeqMod = 8
  MaxReq = 2
  MaxRestart = 1
  MaxTimeout = 2
  MaxFaults = 3
  Premature = TRUE
  Dup = TRUE
  Purge = FALSE
  Live = TRUE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer
CHECK_DEADLOCK FALSE
PROPERTY Answered

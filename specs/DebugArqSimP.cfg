SPECIFICATION Spec
CONSTANTS
  SeqMod = 64
  MaxReq = 20
  MaxRestart = 2
  MaxTimeout = 20
  MaxFaults = 8
  Premature = FALSE
  Dup = FALSE
  Purge = TRUE
  Live = FALSE
  SimLen = 50
INVARIANTS Once NoMix RightAnswer Sim
CHECK_DEADLOCK FALSE


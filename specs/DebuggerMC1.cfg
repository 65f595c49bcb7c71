SPECIFICATION Spec
CONSTANTS
    Part = 1
    NoHist = TRUE
    SimLen = 0
INVARIANTS Bounded Fifo RejectedIsNothing Answers Unique RepeatOk ReadBack MacroIsCommands
CHECK_DEADLOCK FALSE

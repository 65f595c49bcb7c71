SPECIFICATION Spec
CONSTANTS
    Part = 3
    NoHist = FALSE
    SimLen = 30
INVARIANTS Print_ Bounded Fifo RejectedIsNothing
CHECK_DEADLOCK FALSE

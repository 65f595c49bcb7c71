SPECIFICATION Spec
CONSTANT SeqMod = 134217728
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

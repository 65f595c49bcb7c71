SPECIFICATION Spec
CONSTANTS MaxSize = 15
 Spare = 2
 Sizes = {1, 2, 3, 6}
 Aligns = {1, 2}
 Reserves = {3, 8}
 MaxOps = 6
 AtEnd = TRUE
 GrowUnused = FALSE
 Limited = TRUE
INVARIANTS Live Free Counters Enough Found Coalesced
CHECK_DEADLOCK FALSE

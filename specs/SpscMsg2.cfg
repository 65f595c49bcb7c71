CONSTANTS
  Size = 5
  Msgs = 3
  Lens = {0, 1, 2, 3, 4}
  K = 5
  RelRp = TRUE
  AcqRp = TRUE
  RelT = TRUE
  AcqT = TRUE
  EmptyTest = "table"
SPECIFICATION Spec
INVARIANTS NoRace Intact Inside
CHECK_DEADLOCK FALSE

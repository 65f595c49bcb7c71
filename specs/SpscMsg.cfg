CONSTANTS
  Size = 5
  Msgs = 2
  Lens = {0, 2, 3, 4}
  K = 4
  RelRp = TRUE
  AcqRp = TRUE
  RelT = TRUE
  AcqT = TRUE
  EmptyTest = "table"
SPECIFICATION Spec
INVARIANTS NoRace Intact Inside
CHECK_DEADLOCK FALSE

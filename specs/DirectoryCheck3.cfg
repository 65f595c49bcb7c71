SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 98}
  MaxLen = 5
  MaxObjs = 2
  LookAlphabet = {47, 97, 98, 99}
  MaxLook = 5
INVARIANTS FindShort FindLong FindOwn ListAll
CHECK_DEADLOCK FALSE

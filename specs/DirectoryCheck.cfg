SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 98}
  MaxLen = 3
  MaxObjs = 3
  LookAlphabet = {47, 97, 98, 99}
  MaxLook = 4
INVARIANTS FindShort FindLong FindOwn ListAll
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 98}
  MaxLen = 4
  MaxObjs = 3
  LookAlphabet = {47, 97, 98, 99}
  MaxLook = 3
INVARIANTS FindShort FindLong FindOwn ListAll
CHECK_DEADLOCK FALSE

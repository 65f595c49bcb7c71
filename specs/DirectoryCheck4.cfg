SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 98}
  MaxLen = 3
  MaxObjs = 4
  LookAlphabet = {47, 97, 98, 99}
  MaxLook = 3
INVARIANTS FindShort FindLong FindOwn ListAll
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Alphabet = {0, 10, 13, 27, 67, 69, 92, 95, 127, 200}
 BurstLen = 0
INVARIANT Framing_
CHECK_DEADLOCK FALSE

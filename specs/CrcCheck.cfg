SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Alphabet = {165}
 BurstLen = 255
INVARIANT Burst
CHECK_DEADLOCK FALSE

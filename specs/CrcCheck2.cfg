SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Alphabet = {90}
 BurstLen = 65535
INVARIANT Burst
CHECK_DEADLOCK FALSE

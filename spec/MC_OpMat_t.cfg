INIT Init
NEXT Next
CONSTANTS
 N = 3
 L = 4
INVARIANT Sound
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
 N = 2
 L = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE

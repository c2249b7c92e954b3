INIT Init
NEXT Next
CONSTANTS
 N = 2
 L = 4
INVARIANT Sound
CHECK_DEADLOCK FALSE

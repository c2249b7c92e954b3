INIT Init
NEXT Next
CONSTANTS
 MaxSites = 9
CONSTRAINT Bound
INVARIANT Sound
CHECK_DEADLOCK FALSE

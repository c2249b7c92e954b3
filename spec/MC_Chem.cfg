INIT Init
NEXT Next
CONSTANTS
 MaxSites = 6
CONSTRAINT Bound
INVARIANT Sound
CHECK_DEADLOCK FALSE

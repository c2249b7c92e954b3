INIT Init
NEXT Next
CONSTANTS
 MaxLen = 4
INVARIANT InMemory
PROPERTIES
 Frame
 Kept
CHECK_DEADLOCK FALSE

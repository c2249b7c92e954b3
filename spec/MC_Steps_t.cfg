INIT Init
NEXT Next
CONSTANTS
 MaxLen = 5
INVARIANT InMemory
PROPERTIES
 Frame
 Kept
CHECK_DEADLOCK FALSE

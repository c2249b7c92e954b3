INIT Init
NEXT Next
CONSTANTS
 Alphabet = {"0", "1", "9", ".", "-", "d", "\n"}
 MaxLen = 6
INVARIANT Round
INVARIANT BumpOk
INVARIANT Shape
PROPERTY Prefix
CHECK_DEADLOCK FALSE

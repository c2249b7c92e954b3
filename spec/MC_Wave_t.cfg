CONSTANTS MaxLen = 4
INIT Init
NEXT Next
INVARIANTS AlwaysLegal FlipTwice
PROPERTIES StaysNumeric
CHECK_DEADLOCK FALSE

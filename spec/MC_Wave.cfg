CONSTANTS MaxLen = 3
INIT Init
NEXT Next
INVARIANTS AlwaysLegal FlipTwice EmitInv
PROPERTIES StaysNumeric
CHECK_DEADLOCK FALSE

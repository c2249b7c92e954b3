INIT Init
NEXT Next
CONSTANT M = 3
CONSTANT MaxLen = 4
CONSTANT Strings = TRUE
INVARIANT NormalDenotes
INVARIANT AdjointDenotes
INVARIANT JWDenotes
INVARIANT JWReverse
INVARIANT JWNormal
CHECK_DEADLOCK FALSE

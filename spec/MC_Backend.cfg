CONSTANTS MaxLen = 2 MaxSet = 2
INIT Init
NEXT Next
INVARIANTS CountsCircuits JobsBound FileHolds EmitInv
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

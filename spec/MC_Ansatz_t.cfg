INIT Init
NEXT Next
CONSTANT Depth = 6
CONSTANT EmitGen = FALSE
INVARIANT Fresh
INVARIANT Cached
CHECK_DEADLOCK FALSE

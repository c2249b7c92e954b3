INIT Init
NEXT Next
CONSTANT Depth = 4
CONSTANT EmitGen = TRUE
INVARIANT Fresh
INVARIANT Cached
CHECK_DEADLOCK FALSE

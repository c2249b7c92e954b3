INIT Init
NEXT Next
CONSTANT Depth = 4
CONSTANT Kinds = {"q", "i"}
CONSTANT EmitGen = TRUE
INVARIANT Faithful
INVARIANT Simple
CHECK_DEADLOCK FALSE

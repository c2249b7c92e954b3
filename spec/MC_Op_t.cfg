INIT Init
NEXT Next
CONSTANT Depth = 5
CONSTANT Kinds = {"q", "i"}
CONSTANT EmitGen = FALSE
INVARIANT Faithful
INVARIANT Simple
CHECK_DEADLOCK FALSE

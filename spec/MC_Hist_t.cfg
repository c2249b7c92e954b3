INIT Init
NEXT Next
CONSTANT Depth = 5
CONSTANT EmitGen = FALSE
CONSTANT Kinds = {"plain", "grad", "art", "artgrad"}
CONSTANT Conds <- MCConds
INVARIANT Exact
INVARIANT Increasing
INVARIANT Counted
INVARIANT Apart
PROPERTY Local
CHECK_DEADLOCK FALSE

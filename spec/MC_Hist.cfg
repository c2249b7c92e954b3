INIT Init
NEXT Next
CONSTANT Depth = 3
CONSTANT EmitGen = TRUE
CONSTANT Kinds = {"plain", "grad", "art", "artgrad"}
CONSTANT Conds <- MCConds
INVARIANT Exact
INVARIANT Increasing
INVARIANT Counted
INVARIANT Apart
PROPERTY Local
CHECK_DEADLOCK FALSE

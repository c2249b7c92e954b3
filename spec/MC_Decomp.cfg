INIT Init
NEXT Next
CONSTANTS MaxOps = 2  MaxRules = 2
INVARIANTS Preserves
CHECK_DEADLOCK FALSE

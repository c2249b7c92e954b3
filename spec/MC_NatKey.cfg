INIT Init
NEXT Next
CONSTANT MaxLen = 2
INVARIANTS Laws Nums
CHECK_DEADLOCK FALSE

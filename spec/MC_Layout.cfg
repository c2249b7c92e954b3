INIT Init
NEXT Next
CONSTANTS MaxX = 6  MaxY = 6
INVARIANTS Inside Degree Bip Done
CHECK_DEADLOCK FALSE

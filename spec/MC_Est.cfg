INIT Init
NEXT Next
INVARIANT NothingLost
INVARIANT InOrder
INVARIANT RequestsOK
CHECK_DEADLOCK FALSE

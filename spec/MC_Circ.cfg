INIT Init
NEXT Next
CONSTANTS NQ = 3  MaxLen = 2  Emit = TRUE
INVARIANTS BindClosed BindTwice SwapSwap BindKeepsN FreeOK ProductLaw InverseLaw RunsLaw EmitInv
CHECK_DEADLOCK FALSE

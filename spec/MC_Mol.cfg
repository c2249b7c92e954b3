INIT Init
NEXT Next
CONSTANTS
 MaxObj = 2
 Toks = {1, 2}
 Names = {"a", "b"}
 Depth = 5
INVARIANT RoundTrip
INVARIANT Loaded
INVARIANT Idem
PROPERTY Frame
PROPERTY Keeps
PROPERTY Files
CHECK_DEADLOCK FALSE

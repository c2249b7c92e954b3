INIT Init
NEXT Next
CONSTANT Depth = 4
CONSTANT EmitGen = TRUE
CONSTANT Names = {1, 2}
CONSTANT Objs = {1, 2, 3}
INVARIANT LastWins
PROPERTY Frame
PROPERTY Grows
CHECK_DEADLOCK FALSE

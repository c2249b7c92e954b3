INIT Init
NEXT Next
CONSTANTS
 MaxGroups = 3
INVARIANT Disjoint
INVARIANT Uniform
INVARIANT AtMost
PROPERTY Kept
CHECK_DEADLOCK FALSE

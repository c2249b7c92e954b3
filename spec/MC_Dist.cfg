CONSTANTS K = 4 W = 8 MaxN = 7
INIT Init
NEXT Next
INVARIANTS Repr NeverStuck MmdLaws LikelihoodLaws
CHECK_DEADLOCK FALSE

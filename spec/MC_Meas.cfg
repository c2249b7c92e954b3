CONSTANTS NQ = 2 MaxLen = 5 MaxSteps = 3
INIT Init
NEXT Next
INVARIANTS CountsTotal Rebuild ParitySplit CovPSD CorrIsEvOfProduct LinearEv SaveLossless EmitInv
CHECK_DEADLOCK FALSE

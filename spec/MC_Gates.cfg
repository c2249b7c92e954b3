INIT Init
NEXT Next
CONSTANTS
 MaxW = 3
 Angles <- AnglesV
 AnglesH <- AnglesHV
INVARIANTS WordMat IsUnitary DaggerInvolution DaggerAdjoint Commute CtrlAdd HermitianRight Additive
CHECK_DEADLOCK FALSE

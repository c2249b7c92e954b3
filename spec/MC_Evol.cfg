CONSTANTS NQ = 2  MaxTerms = 2
INIT Init
NEXT Next
INVARIANTS UnitNorm IsPrefixProduct CommuteSound CommutingExact Undo ShiftRule
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
  W = 6
  MaxTotal = 7
INVARIANT Apportionable

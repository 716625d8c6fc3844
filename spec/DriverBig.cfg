CONSTANTS
  MaxN = 7
  MaxBudget = 8
  MaxChunk = 5
SPECIFICATION Spec
INVARIANT OwnPosition
INVARIANT ByBudget
INVARIANT NoWaste
INVARIANT Ample
CHECK_DEADLOCK FALSE

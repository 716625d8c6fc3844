CONSTANTS
  MaxN = 4
  MaxBudget = 5
  MaxChunk = 3
SPECIFICATION Spec
INVARIANT OwnPosition
INVARIANT ByBudget
INVARIANT NoWaste
INVARIANT Ample
INVARIANT Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE

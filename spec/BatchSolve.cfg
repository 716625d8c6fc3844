CONSTANTS
  Kinds = {"linear", "easy", "real", "cluster", "scaled", "lens"}
  MaxLanes = 3
  Cap = 5
SPECIFICATION Spec
INVARIANT LaneIndependent
INVARIANT NeverPastConverged
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NB = 3
  NT = 8
  MaxCells = 4
  MaxWithin = 3
INVARIANTS EachCellOnce NoEmptyRegion Disjoint WrapJoinIsArcs Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NB = 3
  NT = 6
  MaxCells = 3
  MaxWithin = 2
INVARIANTS EachCellOnce NoEmptyRegion Disjoint WrapJoinIsArcs Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSlots = 5
  Deficit = 1
  MaxEvents = 6
  InitLive = {3, 5}
INVARIANTS TotalParity OccupancyIsHistory OneLink OutlinesPartition Emit
CHECK_DEADLOCK FALSE

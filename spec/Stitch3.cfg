SPECIFICATION Spec
CONSTANTS
  NSlots = 10
  Deficit = 2
  MaxEvents = 4
  InitLive = {4}
INVARIANTS TotalParity OccupancyIsHistory OneLink OutlinesPartition Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Points = {0, 1, 4, 6}
 MaxN = 3
INVARIANTS OneToOne Tracks NeverStuck Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Points = {0, 1, 3, 5, 9}
 MaxN = 4
INVARIANTS OneToOne Tracks NeverStuck
CHECK_DEADLOCK FALSE

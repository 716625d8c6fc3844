INIT Init
NEXT Next
INVARIANT Show
INVARIANT Report
POSTCONDITION Post
CHECK_DEADLOCK FALSE

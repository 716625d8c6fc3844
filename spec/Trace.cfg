INIT Init
NEXT Next
INVARIANT Show
POSTCONDITION Post
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Agrees
CHECK_DEADLOCK FALSE

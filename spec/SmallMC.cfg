INIT Init
NEXT Next
INVARIANT ValueOK
INVARIANT WireOK
INVARIANT Emit
CHECK_DEADLOCK FALSE

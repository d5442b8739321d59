INIT Init
NEXT Next
INVARIANTS Isolated Prefixes
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS Repr OneBit Checks Parts
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS Agrees RopesOK
CHECK_DEADLOCK FALSE

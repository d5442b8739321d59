INIT Init
NEXT Next
VIEW View
INVARIANTS Exact Within Nested InInput WriteBound
CHECK_DEADLOCK FALSE

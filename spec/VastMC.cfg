INIT Init
NEXT Next
INVARIANT LengthsAgree
CHECK_DEADLOCK FALSE

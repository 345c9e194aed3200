INIT Init
NEXT Next
INVARIANT Isolation
INVARIANT Emit
CHECK_DEADLOCK FALSE

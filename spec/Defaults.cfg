INIT Init
NEXT Next
INVARIANT Closed
INVARIANT Report
CHECK_DEADLOCK FALSE

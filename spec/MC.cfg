INIT Init
NEXT Next
INVARIANT Holds
INVARIANT InRange
CHECK_DEADLOCK FALSE

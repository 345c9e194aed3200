INIT Init
NEXT Next
INVARIANT BaseLegal
INVARIANT Report
CHECK_DEADLOCK FALSE

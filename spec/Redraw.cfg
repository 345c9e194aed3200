INIT Init
NEXT Next
INVARIANTS Kept Settled Emit
CHECK_DEADLOCK FALSE

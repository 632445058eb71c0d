INIT Init
NEXT Next
CONSTANT Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE

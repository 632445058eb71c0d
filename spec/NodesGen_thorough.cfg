INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT Depth = 7
CONSTANT Wild = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT Depth = 5
CONSTANT Wild = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

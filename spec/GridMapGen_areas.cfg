INIT Init
NEXT Next
CONSTANTS Depth = 3
WHICH = "areas"
INVARIANT Emit
CHECK_DEADLOCK FALSE

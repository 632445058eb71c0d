INIT Init
NEXT Next
CONSTANTS Depth = 4
WHICH = "areas"
INVARIANT Emit
CHECK_DEADLOCK FALSE

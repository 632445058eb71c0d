INIT Init
NEXT Next
CONSTANTS Depth = 3 ANG = {0, 3, 6}
INVARIANT Emit
CHECK_DEADLOCK FALSE

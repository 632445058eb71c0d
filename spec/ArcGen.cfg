INIT Init
NEXT Next
CONSTANTS Depth = 2 ANG = {0, 3, 6, 8}
INVARIANT Emit
CHECK_DEADLOCK FALSE

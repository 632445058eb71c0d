INIT Init
NEXT Next
CONSTANTS W = 2
H = 1
Ds = {0, 2, 4, 9}
Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE

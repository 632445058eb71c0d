INIT Init
NEXT Next
CONSTANTS W = 5 HH = 4
INVARIANTS Terminates Exact NeverBelow Shortest
CHECK_DEADLOCK FALSE

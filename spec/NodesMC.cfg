INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS Meaning Queries
CHECK_DEADLOCK FALSE

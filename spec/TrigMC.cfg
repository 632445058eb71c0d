INIT Init
NEXT Next
CONSTANT N = 4000
INVARIANT Accurate
CHECK_DEADLOCK FALSE

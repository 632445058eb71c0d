INIT Init
NEXT Next
CONSTANTS N = 9 KMAX = 3
INVARIANTS Allowed Exact

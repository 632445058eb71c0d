INIT Init
NEXT Next
INVARIANT Disjoint
CHECK_DEADLOCK TRUE

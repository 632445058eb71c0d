INIT Init
NEXT Next
INVARIANTS OneCell Centres
CHECK_DEADLOCK FALSE

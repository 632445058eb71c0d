CONSTANTS N = 5 M = 13
INIT Init
NEXT Next
INVARIANT DesignOk
CHECK_DEADLOCK FALSE

CONSTANTS T = 24 N = 6
INIT Init
NEXT Next
INVARIANTS SidesOk InnerOk TouchOk
CHECK_DEADLOCK FALSE

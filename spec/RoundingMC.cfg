INIT Init
NEXT Next
CONSTANTS D = 16
Lim = 4000
INVARIANTS Nearest AwayFromZero Odd
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT R = 350000
CONSTANT Far = 6
CONSTANT Headings = 12
INVARIANT Right
CHECK_DEADLOCK FALSE

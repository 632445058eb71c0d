INIT Init
NEXT Next
CONSTANT R = 350000
CONSTANT Far = 3
CONSTANT Headings = 5
INVARIANT Right
CHECK_DEADLOCK FALSE

CONSTANTS Wid = 5
 Hei = 3
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK TRUE

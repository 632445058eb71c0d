CONSTANTS Wid = 7
 Hei = 4
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK TRUE

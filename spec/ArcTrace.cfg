CONSTANTS FULL = 62831853 SLACK = 3
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE

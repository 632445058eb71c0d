INIT Init
NEXT Next
CONSTANT WHAT = "P03"
CHECK_DEADLOCK TRUE

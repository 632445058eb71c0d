CONSTANT WHAT = "P03"
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE

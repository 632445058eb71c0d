INIT Init
NEXT Next
CONSTANT WHAT = "P05"
CHECK_DEADLOCK TRUE

INIT Init
NEXT Next
CONSTANT WHAT = "P04"
CHECK_DEADLOCK TRUE

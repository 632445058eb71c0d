CONSTANT WHAT = "P04"
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE

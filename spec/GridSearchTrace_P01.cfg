INIT Init
NEXT Next
CONSTANT WHAT = "P01"
CHECK_DEADLOCK TRUE

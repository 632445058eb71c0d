CONSTANT WHAT = "P01"
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE

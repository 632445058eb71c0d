INIT Init
NEXT Next
CONSTANT WHAT = "P02"
CHECK_DEADLOCK TRUE

CONSTANT WHAT = "P02"
INIT Init
NEXT Next
CHECK_DEADLOCK TRUE

INIT Init
NEXT Next
CONSTANTS W = 3
H = 2
Vals = {0, 100, 255}
MaxOps = 4
INVARIANT OneClass
PROPERTY RestoreOk
CHECK_DEADLOCK FALSE

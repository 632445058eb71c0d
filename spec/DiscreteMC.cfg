CONSTANT N = 60
INIT Init
NEXT Next
INVARIANTS LineOk PointsOk ArcOk
CHECK_DEADLOCK FALSE

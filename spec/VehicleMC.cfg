INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT DEPTH = 4
INVARIANTS Limited Smooth Cusps BackAgain ArcOk Priced

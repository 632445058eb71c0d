CONSTANTS FULL = 8 SLACK = 0
INIT Init
NEXT Next
INVARIANTS Range Kept OnIsCovered EndsOn SameBack Size
CHECK_DEADLOCK TRUE

CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS RootsRight CommonRight MeetRight MeetSym
CHECK_DEADLOCK FALSE

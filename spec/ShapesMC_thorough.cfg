CONSTANT N = 5
INIT Init
NEXT Next
INVARIANTS RootsRight CommonRight MeetRight MeetSym
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 12
RMax = 40
INVARIANT Good
PROPERTY Ends
CHECK_DEADLOCK FALSE

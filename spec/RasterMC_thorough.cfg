SPECIFICATION Spec
CONSTANTS N = 30
RMax = 300
INVARIANT Good
PROPERTY Ends
CHECK_DEADLOCK FALSE

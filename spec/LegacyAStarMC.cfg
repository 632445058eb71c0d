SPECIFICATION Spec
CONSTANTS W = 3
HH = 2
MapCount = 64
Step = 1
INVARIANTS Found None
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS W = 3
HH = 3
MapCount = 512
Step = 149
INVARIANTS Found None
PROPERTY Ends
CHECK_DEADLOCK FALSE

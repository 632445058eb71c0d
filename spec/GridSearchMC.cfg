SPECIFICATION Spec
CONSTANTS W = 4
HH = 2
Kinds <- MCKinds
INVARIANTS Sound Complete Cheap
PROPERTIES ClosedFinal Terminates
CHECK_DEADLOCK FALSE

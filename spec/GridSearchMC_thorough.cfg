SPECIFICATION Spec
CONSTANTS W = 3
HH = 3
Kinds <- MCKinds
INVARIANTS Sound Complete Cheap
PROPERTIES ClosedFinal Terminates
CHECK_DEADLOCK FALSE

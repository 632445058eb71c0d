SPECIFICATION Spec
CONSTANTS
 RMax = 40
 AMax = 7
 N = 12
INVARIANTS ErrOk ColumnOk DoneOk ShapeOk ArcsOk
PROPERTY Ends
CHECK_DEADLOCK FALSE

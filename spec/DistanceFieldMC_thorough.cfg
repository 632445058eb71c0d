SPECIFICATION Spec
CONSTANTS W = 5 HH = 5
INVARIANTS Arrives Nowhere Clean Once NotLong
PROPERTIES Ends
CHECK_DEADLOCK FALSE

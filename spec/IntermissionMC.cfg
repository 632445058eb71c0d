SPECIFICATION Spec
CONSTANTS MaxN = 9
MaxS = 12
MaxCalls = 40
INVARIANT Agrees Within
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS C = 2 MAXW = 4 LOOKUPS = 2
INVARIANTS InArray Bijection
CHECK_DEADLOCK FALSE

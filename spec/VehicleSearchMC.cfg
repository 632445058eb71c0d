SPECIFICATION Spec
CONSTANTS CELLS = 5 WIDTH = 3 LENS = {2, 5}
INVARIANTS Places Costs StartsKept WayBack Steps Complete Answer
PROPERTY Improves
CHECK_DEADLOCK FALSE

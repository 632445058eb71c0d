INIT Init
NEXT Next
CONSTANTS Depth = 3
WHICH = "cells"
INVARIANT Emit
CHECK_DEADLOCK FALSE

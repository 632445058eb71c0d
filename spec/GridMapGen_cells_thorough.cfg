INIT Init
NEXT Next
CONSTANTS Depth = 4
WHICH = "cells"
INVARIANT Emit
CHECK_DEADLOCK FALSE

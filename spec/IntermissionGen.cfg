INIT Init
NEXT Next
CONSTANTS Pairs <- MCPairs
Depth = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE

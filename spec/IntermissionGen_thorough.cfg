INIT Init
NEXT Next
CONSTANTS Pairs <- MCPairs
Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE

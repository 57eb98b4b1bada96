SPECIFICATION Spec
CONSTANTS MTypes = {1, 2}
 MaxG = 3
 MaxC = 2
 MaxT = 3
 Poll <- MCPoll
INVARIANT NoComplaint
INVARIANT Gated
PROPERTY Returns
CHECK_DEADLOCK FALSE

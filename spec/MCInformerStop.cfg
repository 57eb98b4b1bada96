SPECIFICATION Spec
CONSTANTS Hs = {1, 2}
 MaxN = 2
INVARIANT Over
INVARIANT Silent
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Items = {a, b}
 Delays = {0, 1, 2}
 MaxTime = 4
 MaxOps = 3
INVARIANTS Inv Prompt Ordered NotLost OnePending
PROPERTIES Eventually
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Rate = 2
 Burst = 2
 MaxT = 1536
 MaxN = 7
 Base = 3
 Cap = 40
 Items = {x}
INVARIANTS Window NoDelayWithToken Smallest ItemExact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Default = 3
 Asks = {99, 98, 0, 2, 5}
 Hs = {1, 2}
 MaxT = 12
 MaxBreaks = 2
INVARIANT NeverTooSoon
INVARIANT InTime
INVARIANT Periods
INVARIANT Smallest
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Default = 3
 Asks = {99, 98, 0, 2, 5}
 Hs = {1, 2}
 MaxT = 8
 MaxBreaks = 1
INVARIANT NeverTooSoon
INVARIANT InTime
INVARIANT Periods
INVARIANT Smallest
CHECK_DEADLOCK FALSE

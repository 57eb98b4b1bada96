SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Hs = {1}
 Slow = {1}
 MaxEv = 3
 MaxBreaks = 1
 Count = TRUE
 MaxResyncs = 1
INVARIANT NothingBad
INVARIANT Pipeline
INVARIANT SyncTruth
INVARIANT NothingMissed
INVARIANT EachTold
CHECK_DEADLOCK FALSE

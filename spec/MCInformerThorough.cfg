SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Hs = {1, 2}
 Slow = {}
 MaxEv = 3
 MaxBreaks = 1
 Count = FALSE
 MaxResyncs = 1
INVARIANT NothingBad
INVARIANT Pipeline
INVARIANT SyncTruth
INVARIANT NothingMissed
PROPERTY SyncStays
CHECK_DEADLOCK FALSE

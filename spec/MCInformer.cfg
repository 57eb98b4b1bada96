SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Hs = {1, 2}
 Slow = {2}
 MaxEv = 2
 MaxBreaks = 1
 Count = FALSE
 MaxResyncs = 1
INVARIANT NothingBad
INVARIANT Pipeline
INVARIANT SyncTruth
INVARIANT NothingMissed
PROPERTY SyncStays
PROPERTY Converged
PROPERTY Informed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 MaxV = 4
 MaxLen = 4
 HasKnown = TRUE
INVARIANTS Inv Conv SyncTruth
PROPERTIES NeverUnsynced ResyncSafe
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT KeySet = {"a", "b", "c"}
CONSTANT MaxV = 4
CONSTANT MaxQ = 6
INVARIANT Inv
INVARIANT SyncedLate
INVARIANT SyncUp
INVARIANT SyncedOnce
PROPERTY Fresh
PROPERTY Line
PROPERTY NeverUnsynced
CHECK_DEADLOCK FALSE

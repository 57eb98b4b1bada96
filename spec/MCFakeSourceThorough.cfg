SPECIFICATION Spec
CONSTANTS KeySet = {1, 2}
 MaxChg = 3
 MaxW = 2
 Types = {"ADDED", "MODIFIED", "DELETED"}
INVARIANTS Told ListAndWatch
CHECK_DEADLOCK FALSE

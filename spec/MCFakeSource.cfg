SPECIFICATION Spec
CONSTANTS KeySet = {1}
 MaxChg = 3
 MaxW = 2
 Types = {"ADDED", "DELETED"}
INVARIANTS Told ListAndWatch
CHECK_DEADLOCK FALSE

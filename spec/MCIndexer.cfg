SPECIFICATION Spec
CONSTANTS KeySet = {1, 2}
 Vals = {1, 2}
INVARIANTS Exact NoEmptySets
CHECK_DEADLOCK FALSE

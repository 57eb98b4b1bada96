SPECIFICATION Spec
CONSTANTS Times = {0, 5, 10, 12, 13, 20}
 Names = {1, 2, 3}
INVARIANTS Works Frozen
PROPERTY NotLost
CHECK_DEADLOCK FALSE

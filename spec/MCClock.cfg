SPECIFICATION Spec
CONSTANTS MaxT = 5
 Ids = {1, 2}
 Ds = {0, 1, 2, 3}
 MaxResets = 2
INVARIANT TimerOnce
INVARIANT StoppedNever
INVARIANT NothingMissed
INVARIANT Phase
PROPERTY NotEarly
CHECK_DEADLOCK FALSE

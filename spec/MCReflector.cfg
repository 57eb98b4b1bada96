SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 MaxEv = 3
 MaxFaults = 2
INVARIANT StoreIsSnapshot
INVARIANT ResumesRight
PROPERTY NeverBack
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NL = 2
 MaxRv = 2
 Records = {1}
 Faults = TRUE
 Orphans = TRUE
INVARIANT NoComplaint
INVARIANT InStep
CHECK_DEADLOCK FALSE

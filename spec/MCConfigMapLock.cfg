SPECIFICATION Spec
CONSTANTS NL = 2
 MaxRv = 3
 Records = {1}
 Faults = TRUE
 Orphans = FALSE
INVARIANT NoComplaint
INVARIANT InStep
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
 Lease = 4
 Renew = 1
 Retry = 1
 MaxRetry = 1
 L = 0
 Release = TRUE
 Faults = TRUE
 Crashes = FALSE
 Touches = FALSE
 Count = FALSE
INVARIANT Exclusion
INVARIANT Stored
CHECK_DEADLOCK FALSE

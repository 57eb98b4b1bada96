SPECIFICATION Spec
CONSTANTS N = 2
 Lease = 5
 Renew = 2
 Retry = 1
 MaxRetry = 2
 L = 1
 Release = TRUE
 Faults = TRUE
 Crashes = TRUE
 Touches = TRUE
 Count = FALSE
INVARIANT Exclusion
INVARIANT Stored
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 2
 Lease = 5
 Renew = 2
 Retry = 1
 MaxRetry = 2
 L = 0
 Release = TRUE
 Faults = TRUE
 Crashes = FALSE
 Touches = FALSE
 Count = TRUE
INVARIANT Exclusion
INVARIANT Taken
INVARIANT FreeTaken
INVARIANT Lease1
CHECK_DEADLOCK FALSE

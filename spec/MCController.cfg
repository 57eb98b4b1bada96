SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 Workers = 2
 MaxT = 5
 MaxArrive = 2
 MaxOut = 3
 Sec <- MCSec
 Tol <- MCTol
 Backoff <- MCBackoff
INVARIANT NoComplaint
INVARIANT OneAtATime
INVARIANT RetryPending
INVARIANT NothingLost
PROPERTY Served
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxT = 9
 Tol = 0
INVARIANT AttemptsBounded
INVARIANT Spacing
INVARIANT PollDeadline
INVARIANT NotStuck
PROPERTY NoRunAfterStop
PROPERTY NoRunAfterEnd
CHECK_DEADLOCK FALSE

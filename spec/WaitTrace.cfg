SPECIFICATION TSpec
CONSTANT Tol = 2
CONSTANT DInit <- TI
CONSTANT Verdict <- TVerdict
CONSTANT DStep <- TStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

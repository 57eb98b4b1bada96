SPECIFICATION TSpec
CONSTANT DInit <- RInit
CONSTANT Verdict <- RVerdict
CONSTANT DStep <- RStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

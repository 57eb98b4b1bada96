SPECIFICATION TSpec
CONSTANT DInit <- LInit
CONSTANT Verdict <- LVerdict
CONSTANT DStep <- LStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

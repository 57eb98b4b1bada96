SPECIFICATION TSpec
CONSTANT DInit <- BInit
CONSTANT Verdict <- BVerdict
CONSTANT DStep <- BStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

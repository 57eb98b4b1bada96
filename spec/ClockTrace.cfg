SPECIFICATION TSpec
CONSTANT DInit <- KInit
CONSTANT Verdict <- KVerdict
CONSTANT DStep <- KStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

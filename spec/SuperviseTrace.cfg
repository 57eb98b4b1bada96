SPECIFICATION TSpec
CONSTANT DInit <- VInit
CONSTANT Verdict <- VVerdict
CONSTANT DStep <- VStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

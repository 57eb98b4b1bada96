SPECIFICATION TSpec
CONSTANT DInit <- GInit
CONSTANT Verdict <- GVerdict
CONSTANT DStep <- GStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT DInit <- ZInit
CONSTANT Verdict <- ZVerdict
CONSTANT DStep <- ZStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT DInit <- YInit
CONSTANT Verdict <- YVerdict
CONSTANT DStep <- YStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

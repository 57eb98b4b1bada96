SPECIFICATION TSpec
CONSTANT DInit <- XInit
CONSTANT Verdict <- XVerdict
CONSTANT DStep <- XStep
POSTCONDITION Post
CHECK_DEADLOCK FALSE

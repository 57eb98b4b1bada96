SPECIFICATION TSpec
CONSTANT DInit <- DI
CONSTANT Verdict <- DV
CONSTANT DStep <- DS
POSTCONDITION Post
CHECK_DEADLOCK FALSE

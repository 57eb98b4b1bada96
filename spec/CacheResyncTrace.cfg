SPECIFICATION TSpec
CONSTANT DInit <- AInit
CONSTANT Verdict <- AVerdict
CONSTANT DStep <- AStep
CONSTANT Slack <- ASlack
POSTCONDITION Post
CHECK_DEADLOCK FALSE

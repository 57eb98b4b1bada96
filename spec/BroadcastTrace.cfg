SPECIFICATION TSpec
CONSTANT QLen = 25
CONSTANT Init0 <- TBInit
CONSTANT Apply <- TBApply
CONSTANT Internal <- TBInternal
CONSTANT ProbeOk <- TBProbe
CONSTANT EnvStep <- TBEnv
CONSTANT CancelEffect <- TBCancel
CONSTANT Due <- TBDue
CONSTANT SetNow <- TBSetNow
CONSTANT Quiet <- TBQuiet
CONSTRAINT Constraint
POSTCONDITION Post
CHECK_DEADLOCK FALSE

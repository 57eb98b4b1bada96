SPECIFICATION TSpec
CONSTANT Init0 <- TXInit
CONSTANT Apply <- TXApply
CONSTANT Internal <- TXInternal
CONSTANT ProbeOk <- TXProbe
CONSTANT EnvStep <- TXEnv
CONSTANT CancelEffect <- TXCancel
CONSTANT Due <- TXDue
CONSTANT SetNow <- TXSetNow
CONSTANT Quiet <- TXQuiet
CONSTRAINT Constraint
POSTCONDITION Post
CHECK_DEADLOCK FALSE

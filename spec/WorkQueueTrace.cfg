SPECIFICATION TSpec
CONSTANT Init0 <- TQInit
CONSTANT Apply <- TQApply
CONSTANT Internal <- QInternal
CONSTANT ProbeOk <- TQProbe
CONSTANT EnvStep <- TQEnv
CONSTANT CancelEffect <- TQCancel
CONSTANT Due <- QDue
CONSTANT SetNow <- TQSetNow
CONSTANT Quiet <- QQuiet
CONSTRAINT Constraint
INVARIANT TraceInv
POSTCONDITION Post
CHECK_DEADLOCK FALSE

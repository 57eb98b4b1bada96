SPECIFICATION TSpec
CONSTANT Init0 <- TFInit
CONSTANT Apply <- TFApply
CONSTANT Internal <- TFInternal
CONSTANT ProbeOk <- TFProbe
CONSTANT EnvStep <- TFEnv
CONSTANT CancelEffect <- TFCancel
CONSTANT Due <- TFDue
CONSTANT SetNow <- TFSetNow
CONSTANT Quiet <- TFQuiet
CONSTRAINT Constraint
INVARIANT TraceInv
POSTCONDITION Post
CHECK_DEADLOCK FALSE

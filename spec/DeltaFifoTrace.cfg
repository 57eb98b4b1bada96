SPECIFICATION TSpec
CONSTANT Init0 <- TDInit
CONSTANT Apply <- TDApply
CONSTANT Internal <- TDInternal
CONSTANT ProbeOk <- TDProbe
CONSTANT EnvStep <- TDEnv
CONSTANT CancelEffect <- TDCancel
CONSTANT Due <- TDDue
CONSTANT SetNow <- TDSetNow
CONSTANT Quiet <- TDQuiet
CONSTRAINT Constraint
INVARIANT TraceInv
POSTCONDITION Post
CHECK_DEADLOCK FALSE

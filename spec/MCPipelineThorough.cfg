SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 MaxV = 5
 Preds <- MCPreds
INVARIANT NoComplaint
PROPERTY Reconciled
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT GInit <- DGInit
CONSTANT GApply <- DGApply
CONSTANT GInternal <- DGInternal
CONSTANT GCalls <- DGCalls
CONSTANT GWaits <- DGWaits
CONSTANT GAbs <- DGAbs
CONSTANT GOp <- DGOp
CONSTANT MaxTrail = 5
CONSTANT MaxPend = 1
CONSTANT Hist = 0
CONSTANT GKeys = {"a", "b"}
CONSTANT MaxLen = 2
CONSTANT HasKnown = TRUE
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

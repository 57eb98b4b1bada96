SPECIFICATION Spec
CONSTANT GInit <- PGInit
CONSTANT GApply <- PGApply
CONSTANT GInternal <- PGInternal
CONSTANT GCalls <- PGCalls
CONSTANT GWaits <- PGWaits
CONSTANT GAbs <- PGAbs
CONSTANT GOp <- PGOp
CONSTANT MaxTrail = 6
CONSTANT MaxPend = 2
CONSTANT Hist = 0
CONSTANT GKeys = {"a", "b", "c"}
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

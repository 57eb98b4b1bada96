SPECIFICATION Spec
CONSTANT GInit <- QGInit
CONSTANT GApply <- QGApply
CONSTANT GInternal <- QGInternal
CONSTANT GCalls <- QGCalls
CONSTANT GWaits <- QGWaits
CONSTANT GAbs <- QGAbs
CONSTANT GOp <- QGOp
CONSTANT MaxTrail = 7
CONSTANT MaxPend = 1
CONSTANT Hist = 1
CONSTANT GItems = {"a", "b"}
CONSTANT Delays = {0, 2, 4}
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

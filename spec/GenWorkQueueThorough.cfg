SPECIFICATION Spec
CONSTANT GInit <- QGInit
CONSTANT GApply <- QGApply
CONSTANT GInternal <- QGInternal
CONSTANT GCalls <- QGCalls
CONSTANT GWaits <- QGWaits
CONSTANT GAbs <- QGAbs
CONSTANT GOp <- QGOp
CONSTANT MaxTrail = 10
CONSTANT MaxPend = 2
CONSTANT Hist = 1
CONSTANT GItems = {"a", "b", "c"}
CONSTANT Delays = {}
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT GInit <- XGInit
CONSTANT GApply <- XGApply
CONSTANT GInternal <- XGInternal
CONSTANT GCalls <- XGCalls
CONSTANT GWaits <- XGWaits
CONSTANT GAbs <- XGAbs
CONSTANT GOp <- XGOp
CONSTANT MaxTrail = 3
CONSTANT MaxPend = 1
CONSTANT Hist = 0
CONSTANT GKeys = {1, 2}
CONSTANT Ivs <- CIvs
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

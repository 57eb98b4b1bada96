SPECIFICATION Spec
CONSTANT GInit <- XGInit
CONSTANT GApply <- XGApply
CONSTANT GInternal <- XGInternal
CONSTANT GCalls <- XGCalls
CONSTANT GWaits <- XGWaits
CONSTANT GAbs <- XGAbs
CONSTANT GOp <- XGOp
CONSTANT MaxTrail = 4
CONSTANT MaxPend = 1
CONSTANT Hist = 1
CONSTANT GKeys = {1, 2}
CONSTANT Ivs <- CIvsT
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

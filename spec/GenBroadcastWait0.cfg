SPECIFICATION Spec
CONSTANT GInit <- BGInit
CONSTANT GApply <- BGApply
CONSTANT GInternal <- BGInternal
CONSTANT GCalls <- BGCalls
CONSTANT GWaits <- BGWaits
CONSTANT GAbs <- BGAbs
CONSTANT GOp <- BGOp
CONSTANT MaxTrail = 8
CONSTANT MaxPend = 1
CONSTANT Hist = 0
CONSTANT Drop = FALSE
CONSTANT Cap = 0
CONSTANT MaxW = 2
CONSTANT MaxInc = 3
CONSTANT QLen = 25
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

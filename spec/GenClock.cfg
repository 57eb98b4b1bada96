SPECIFICATION Spec
CONSTANT GInit <- CGInit
CONSTANT GApply <- CGApply
CONSTANT GInternal <- CGInternal
CONSTANT GCalls <- CGCalls
CONSTANT GWaits <- CGWaits
CONSTANT GAbs <- CGAbs
CONSTANT GOp <- CGOp
CONSTANT MaxTrail = 5
CONSTANT MaxPend = 1
CONSTANT Hist = 0
CONSTANT Ids = {1, 2}
CONSTANT Ds = {0, 2, 3}
CONSTANT Moves <- CMoves
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

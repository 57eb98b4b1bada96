SPECIFICATION Spec
CONSTANTS Items = {a, b}
 Workers = {w1, w2, w3}
 MaxAdd = 4
 MaxCancel = 2
 Renotify = TRUE
INVARIANTS Inv OneHolder HeldIsProc OwedKept NoLostWakeup NoGoneWithWork
PROPERTIES Delivered Released AllGone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS QLen = 1
 NEv = 2
 WIds = {1, 2}
 Caps = {0, 1}
 Pre <- PreV
INVARIANT InOrder
INVARIANT NothingDroppedIfWaiting
INVARIANT Complete
INVARIANT OnlyLiveBlock
INVARIANT Progress
CHECK_DEADLOCK FALSE

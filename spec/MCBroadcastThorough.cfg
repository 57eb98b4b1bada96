SPECIFICATION Spec
CONSTANTS QLen = 2
 NEv = 3
 WIds = {1, 2}
 Caps = {0, 1}
 Pre <- PreV
INVARIANT InOrder
INVARIANT NothingDroppedIfWaiting
INVARIANT Complete
INVARIANT OnlyLiveBlock
INVARIANT Progress
CHECK_DEADLOCK FALSE

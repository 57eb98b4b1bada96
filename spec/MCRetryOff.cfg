SPECIFICATION Spec
CONSTANTS Keys = {"a", "b", "c"}
MaxV = 4
MaxFail = 3
RetryOn = FALSE
INVARIANTS Quiet Kept OneEach InOrder Ahead NothingLost
PROPERTY Settles
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Keys = {"a", "b", "c"}
MaxV = 5
MaxFail = 4
RetryOn = TRUE
INVARIANTS Quiet Kept OneEach InOrder Ahead NothingLost
PROPERTY Settles
CHECK_DEADLOCK FALSE

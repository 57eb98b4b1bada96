SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS NothingLeft OnlyFailures Reported
PROPERTIES Ends NoSpurious
CHECK_DEADLOCK FALSE

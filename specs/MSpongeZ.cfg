SPECIFICATION Spec
CONSTANTS N = 6
 Faulty = "empty"
INVARIANT Agrees
CHECK_DEADLOCK FALSE

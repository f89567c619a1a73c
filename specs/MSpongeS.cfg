SPECIFICATION Spec
CONSTANTS N = 6
 Faulty = "shared"
INVARIANT Agrees
CHECK_DEADLOCK FALSE

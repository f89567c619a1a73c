SPECIFICATION Spec
CONSTANTS N = 6
 Faulty = "eager"
INVARIANT Agrees
CHECK_DEADLOCK FALSE

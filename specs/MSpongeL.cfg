SPECIFICATION Spec
CONSTANTS N = 6
 Faulty = "behind"
INVARIANT Agrees
CHECK_DEADLOCK FALSE

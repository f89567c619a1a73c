SPECIFICATION Spec
CONSTANTS N = 3
 Faulty = "base"
INVARIANT Doubles
CHECK_DEADLOCK FALSE

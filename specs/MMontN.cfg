SPECIFICATION Spec
CONSTANTS N = 3
 Faulty = "nine"
INVARIANT Ladders
CHECK_DEADLOCK FALSE

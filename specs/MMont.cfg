SPECIFICATION Spec
CONSTANTS N = 4
 Faulty = "none"
INVARIANTS Ladders Agree Doubles
CHECK_DEADLOCK FALSE

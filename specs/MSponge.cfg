SPECIFICATION Spec
CONSTANTS N = 6
 Faulty = "none"
INVARIANTS Answers Agrees
CHECK_DEADLOCK FALSE

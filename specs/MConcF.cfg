SPECIFICATION Spec
CONSTANTS
  Variants = {"flag"}
  Callers = {1, 2, 3}
  Calls = 1
INVARIANTS Ordered
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Variants = {"scratch"}
  Callers = {1, 2, 3}
  Calls = 1
INVARIANTS Right
CHECK_DEADLOCK FALSE

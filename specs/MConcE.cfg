SPECIFICATION Spec
CONSTANTS
  Variants = {"early"}
  Callers = {1, 2, 3}
  Calls = 1
INVARIANTS Right
CHECK_DEADLOCK FALSE

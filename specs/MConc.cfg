SPECIFICATION Spec
CONSTANTS
  Variants = {"eager", "once"}
  Callers = {1, 2, 3}
  Calls = 2
INVARIANTS Right Ordered
CHECK_DEADLOCK FALSE

CONSTANTS W = 8 M = 61
SPECIFICATION Spec
INVARIANTS MontRight CarryRight BytesRight DivRight
CHECK_DEADLOCK FALSE

CONSTANTS W = 4 M = 13
SPECIFICATION Spec
INVARIANTS MontRight CarryRight BytesRight DivRight
CHECK_DEADLOCK FALSE

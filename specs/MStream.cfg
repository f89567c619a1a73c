CONSTANTS MaxLen = 8 MaxEv = 4
SPECIFICATION Spec
INVARIANTS Refines Bounds
CHECK_DEADLOCK FALSE

CONSTANTS MaxLen = 11 MaxEv = 6
SPECIFICATION Spec
INVARIANTS Refines Bounds
CHECK_DEADLOCK FALSE

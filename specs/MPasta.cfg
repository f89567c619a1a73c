SPECIFICATION Spec
INVARIANTS Sponge Schnorr
CHECK_DEADLOCK FALSE

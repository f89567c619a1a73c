SPECIFICATION Spec
INVARIANTS Homomorphic Encodings GroupLaws
CHECK_DEADLOCK FALSE

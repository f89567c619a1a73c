SPECIFICATION Spec
INVARIANTS SignerAccepted AcceptedOnlyIfMade SameSecret Decrypts
CHECK_DEADLOCK FALSE
CONSTANT Used = {2}

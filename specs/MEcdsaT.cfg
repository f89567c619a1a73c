SPECIFICATION Spec
INVARIANTS SignerAccepted AcceptedOnlyIfMade Mirror
CHECK_DEADLOCK FALSE
CONSTANT Used = {1, 2, 3}

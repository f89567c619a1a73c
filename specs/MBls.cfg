SPECIFICATION Spec
INVARIANTS Sum OneSignature NoIdentityKey Aggregate
CHECK_DEADLOCK FALSE

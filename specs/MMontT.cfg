SPECIFICATION Spec
CONSTANTS N = 3
 Faulty = "torsion"
INVARIANT Doubles
CHECK_DEADLOCK FALSE

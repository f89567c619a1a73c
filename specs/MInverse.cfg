SPECIFICATION Spec
CONSTANTS N = 8
 Slack = 3
 Bound = 22
 Least = 8
 Most = 19
 Faulty = "none"
INVARIANTS NoCarry Ends Inverse Sums
CHECK_DEADLOCK FALSE

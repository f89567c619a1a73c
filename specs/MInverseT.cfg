SPECIFICATION Spec
CONSTANTS N = 10
 Slack = 3
 Bound = 26
 Least = 10
 Most = 23
 Faulty = "none"
INVARIANTS NoCarry Ends Inverse Sums
CHECK_DEADLOCK FALSE

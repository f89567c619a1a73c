SPECIFICATION Spec
CONSTANTS N = 7
 Slack = 3
 Bound = 20
 Least = 8
 Most = 17
 Faulty = "none"
INVARIANT Ends
CHECK_DEADLOCK FALSE

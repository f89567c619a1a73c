SPECIFICATION Spec
CONSTANTS N = 7
 Slack = 3
 Bound = 20
 Least = 7
 Most = 17
 Faulty = "nosub"
INVARIANT Inverse
CHECK_DEADLOCK FALSE

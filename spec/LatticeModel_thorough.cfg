SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxPer = 1
 Costs = {0, 2}
 Links = {1, 32767}
INVARIANTS InvViterbi InvJudge
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxSize = 3 MaxLines = 3
INVARIANT Denotes1
CHECK_DEADLOCK FALSE

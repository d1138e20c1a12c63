SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 MaxPreempts = 3
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 MaxPreempts = 3
CHECK_DEADLOCK FALSE

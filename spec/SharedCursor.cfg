SPECIFICATION Spec
CONSTANTS Readers = {1, 2, 3}
 Cells = 3
 Locked = TRUE
 MaxPreempts = 100
INVARIANTS OwnEntry Restored
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Readers = {1, 2, 3}
 Cells = 3
 Locked = FALSE
 MaxPreempts = 2
INVARIANTS OwnEntry Restored
CHECK_DEADLOCK FALSE

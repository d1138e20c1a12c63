SPECIFICATION Spec
CONSTANTS MaxText = 4 MaxWords = 2
INVARIANTS WalkFinds EndsGrow
CHECK_DEADLOCK FALSE

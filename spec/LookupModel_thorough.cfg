SPECIFICATION Spec
CONSTANTS MaxText = 3 MaxWords = 3
INVARIANTS WalkFinds EndsGrow
CHECK_DEADLOCK FALSE

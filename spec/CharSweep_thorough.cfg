SPECIFICATION Spec
CONSTANTS Max = 4
 Cats = {"K", "H"}
 MaxLines = 3
INVARIANTS Disjoint Correct NothingOpen
PROPERTY Terminates
CHECK_DEADLOCK FALSE

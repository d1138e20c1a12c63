SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Calls = 4
 ClearFirst = TRUE
INVARIANTS OwnNodes Fits
CHECK_DEADLOCK FALSE

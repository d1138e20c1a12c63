SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Calls = 4
 ClearFirst = FALSE
INVARIANTS OwnNodes Fits
CHECK_DEADLOCK FALSE

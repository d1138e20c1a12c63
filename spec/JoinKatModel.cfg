SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS InvSound InvDone InvTiles
CHECK_DEADLOCK FALSE

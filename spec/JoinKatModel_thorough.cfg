SPECIFICATION Spec
CONSTANTS MaxLen = 7
INVARIANTS InvSound InvDone InvTiles
CHECK_DEADLOCK FALSE

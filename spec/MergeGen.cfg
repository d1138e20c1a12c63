SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Steps = 2
INVARIANTS Tile Surfaces
CHECK_DEADLOCK FALSE

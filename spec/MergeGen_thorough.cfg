SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Steps = 2
INVARIANTS Tile Surfaces
CHECK_DEADLOCK FALSE

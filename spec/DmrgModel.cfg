SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxLen = 3
INVARIANTS Typed Fresh Boundary
PROPERTIES Facing
CHECK_DEADLOCK FALSE

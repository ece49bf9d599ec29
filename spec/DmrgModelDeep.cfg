SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxLen = 4
INVARIANTS Typed Fresh Boundary
PROPERTIES Facing
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 3
INVARIANTS Typed Sound
PROPERTIES Lost Restored Kept
CHECK_DEADLOCK FALSE

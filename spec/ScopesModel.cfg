SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Innermost Once
PROPERTIES Restores
CHECK_DEADLOCK FALSE

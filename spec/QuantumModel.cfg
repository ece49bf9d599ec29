SPECIFICATION Spec
CONSTANTS MaxLen = 3 LawLen = 1
INVARIANTS Involution Reverses Cyclic Composes NormReal
CHECK_DEADLOCK FALSE

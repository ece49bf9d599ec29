SPECIFICATION Spec
CONSTANTS MaxLen = 3 LawLen = 3
INVARIANTS Involution Reverses Cyclic Composes NormReal
CHECK_DEADLOCK FALSE

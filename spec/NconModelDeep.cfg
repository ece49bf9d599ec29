SPECIFICATION Spec
CONSTANTS MaxAxes = 7
INVARIANTS OrderFree OpenKept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxAxes = 6
INVARIANTS OrderFree OpenKept
CHECK_DEADLOCK FALSE

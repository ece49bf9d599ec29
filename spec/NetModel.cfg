SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS WellConnected
PROPERTIES ValueKept Gone
CHECK_DEADLOCK FALSE

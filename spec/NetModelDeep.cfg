SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS WellConnected
PROPERTIES ValueKept Gone
CHECK_DEADLOCK FALSE

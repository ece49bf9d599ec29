SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS ChargeConserved Fits
PROPERTIES NormKept
CHECK_DEADLOCK FALSE

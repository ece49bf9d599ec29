SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS ChargeConserved Fits
PROPERTIES NormKept
CHECK_DEADLOCK FALSE

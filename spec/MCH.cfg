CONSTANTS LMAX = 4
 DEPTH = 5
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS LawsOK Fits
CHECK_DEADLOCK FALSE

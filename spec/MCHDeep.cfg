CONSTANTS LMAX = 8
 DEPTH = 6
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS LawsOK Fits
CHECK_DEADLOCK FALSE

CONSTANTS J = 2
 Plans = TRUE
 FactLimit = 40
SPECIFICATION Spec
INVARIANTS Orthonormal Symmetries Zeros SignRule
CHECK_DEADLOCK FALSE

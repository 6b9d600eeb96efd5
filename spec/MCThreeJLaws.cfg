CONSTANTS J = 5
 Plans = FALSE
 FactLimit = 40
SPECIFICATION Spec
INVARIANTS Orthonormal Symmetries Zeros SignRule
CHECK_DEADLOCK FALSE

CONSTANTS N = 2 K = 4 SHARED = TRUE
SPECIFICATION Spec
INVARIANTS Alone
CHECK_DEADLOCK FALSE

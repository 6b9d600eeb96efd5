CONSTANTS N = 2 K = 4 SHARED = FALSE
SPECIFICATION Spec
INVARIANTS Alone
CHECK_DEADLOCK FALSE

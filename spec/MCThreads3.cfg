CONSTANTS N = 3 K = 1 SHARED = FALSE
SPECIFICATION Spec
INVARIANTS Alone
CHECK_DEADLOCK FALSE

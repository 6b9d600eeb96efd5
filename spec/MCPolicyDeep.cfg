CONSTANT DEPTH = 7
SPECIFICATION Spec
INVARIANTS FlagIsLast Raises NeverZeroWhileChecking ValidAlwaysAnswered
CHECK_DEADLOCK FALSE

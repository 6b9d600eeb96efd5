CONSTANT DEPTH = 4
SPECIFICATION Spec
INVARIANTS FlagIsLast Raises NeverZeroWhileChecking ValidAlwaysAnswered
CHECK_DEADLOCK FALSE

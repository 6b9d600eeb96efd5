SPECIFICATION Spec
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE

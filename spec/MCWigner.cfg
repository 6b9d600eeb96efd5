CONSTANTS LL = 4
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS Representation Symmetries Harmonics
CHECK_DEADLOCK FALSE

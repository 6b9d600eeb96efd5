CONSTANTS DEPTH = 3
 SMAX = 6
 LOMAX = 5
 LMAX = 7
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS Commutator Halves Inverse NoLow SameAsFields RoundTrip Meaning
CHECK_DEADLOCK FALSE

CONSTANTS DEPTH = 2
 SMAX = 4
 LOMAX = 3
 LMAX = 4
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS Commutator Halves Inverse NoLow SameAsFields RoundTrip Meaning
CHECK_DEADLOCK FALSE

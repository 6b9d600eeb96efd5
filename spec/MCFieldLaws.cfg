CONSTANTS LL = 2
 SS = 2
 Dense = TRUE
 FactLimit = 66
SPECIFICATION Spec
INVARIANTS ConjLaws LinLaws DerivLaws ProductLaws Leibniz Norms Pointwise EvalLaws GridLaw
CHECK_DEADLOCK FALSE

CONSTANT FactLimit = 1110
CONSTANT StepOf <- JStep
CONSTANT InitSt <- JInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

CONSTANT FactLimit = 130
CONSTANT StepOf <- FStep
CONSTANT InitSt <- FInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

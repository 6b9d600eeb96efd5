CONSTANT FactLimit = 130
CONSTANT StepOf <- HStep
CONSTANT InitSt <- HInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

CONSTANT FactLimit = 130
CONSTANT StepOf <- ConvStep
CONSTANT InitSt <- ConvInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

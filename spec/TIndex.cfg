CONSTANT FactLimit = 171
CONSTANT StepOf <- IStep
CONSTANT InitSt <- IInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

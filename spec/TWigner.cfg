CONSTANT FactLimit = 66
CONSTANT StepOf <- WStep
CONSTANT InitSt <- WInit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

CONSTANT HI = 7
SPECIFICATION Spec
INVARIANTS TypeOK PositionOK SizeOK FormsOK OrbitOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT PlanOk
CHECK_DEADLOCK FALSE

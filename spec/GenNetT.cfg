SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT PlanOk
CHECK_DEADLOCK FALSE

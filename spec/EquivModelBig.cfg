SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANT Same
CHECK_DEADLOCK FALSE

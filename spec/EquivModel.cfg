SPECIFICATION Spec
CONSTANT Steps = 2
INVARIANT Same
CHECK_DEADLOCK FALSE

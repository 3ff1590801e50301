SPECIFICATION Spec
CONSTANT Size = 4
INVARIANTS ConvOk PoolOk PermOk FlatOk ConcatOk
CHECK_DEADLOCK FALSE

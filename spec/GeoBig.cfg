SPECIFICATION Spec
CONSTANT Size = 6
INVARIANTS ConvOk PoolOk PermOk FlatOk ConcatOk
CHECK_DEADLOCK FALSE

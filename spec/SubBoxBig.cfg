SPECIFICATION Spec
CONSTANTS
  Roots <- RootsBig
  MaxParts = 5
  Values = {0}
INVARIANTS Partition EveryPoint Sound Tighter CountAll
CHECK_DEADLOCK FALSE

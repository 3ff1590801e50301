SPECIFICATION Spec
CONSTANTS
  Roots <- RootsDef
  MaxParts = 4
  Values = {0, 1}
INVARIANTS Partition EveryPoint Sound Tighter CountAll
CHECK_DEADLOCK FALSE

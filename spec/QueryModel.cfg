SPECIFICATION Spec
CONSTANTS
  MaxBoxes = 2
  MaxParts = 2
  Outs = {1, 2}
  Values = {0, 2}
INVARIANTS RangeOk ScoreOk Complete
CHECK_DEADLOCK FALSE

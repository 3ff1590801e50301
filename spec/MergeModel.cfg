SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS PlaneSound ComposedSound PointExact
CHECK_DEADLOCK FALSE

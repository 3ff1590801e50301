SPECIFICATION Spec
CONSTANT R = 3
INVARIANTS PlaneSound ComposedSound PointExact
CHECK_DEADLOCK FALSE

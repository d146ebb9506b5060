SPECIFICATION Spec
INVARIANTS RingBijection NestBijection CentreInside OnlyOne CellAreas
PROPERTY InOrder
CHECK_DEADLOCK FALSE

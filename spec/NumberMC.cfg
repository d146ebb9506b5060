SPECIFICATION Spec
INVARIANTS Bijective StartsAtZero
CHECK_DEADLOCK FALSE

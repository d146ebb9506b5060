SPECIFICATION Spec
CONSTANT L = 6
INVARIANT Agree
CHECK_DEADLOCK FALSE

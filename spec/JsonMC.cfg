SPECIFICATION Spec
CONSTANT L = 5
INVARIANT Agree
CHECK_DEADLOCK FALSE

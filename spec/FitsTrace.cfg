SPECIFICATION Spec
INVARIANT Ok
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Buckets = 1
INVARIANT Ok
CHECK_DEADLOCK FALSE

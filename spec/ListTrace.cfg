SPECIFICATION Spec
CONSTANT Buckets = 251
INVARIANT Ok
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT L = 7
CONSTANT Blur = FALSE
INVARIANTS Right Included Sharp
CHECK_DEADLOCK FALSE

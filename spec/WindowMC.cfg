SPECIFICATION Spec
CONSTANT L = 4
CONSTANT Blur = TRUE
INVARIANTS Right Included Sharp
CHECK_DEADLOCK FALSE

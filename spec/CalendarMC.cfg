SPECIFICATION Spec
INVARIANTS Number Inverse Anchors
CHECK_DEADLOCK FALSE

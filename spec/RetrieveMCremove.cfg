SPECIFICATION Spec
CONSTANT Guards = {"exit", "code"}
INVARIANTS Undamaged Installed Independent
CHECK_DEADLOCK FALSE

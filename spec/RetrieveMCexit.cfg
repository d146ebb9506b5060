SPECIFICATION Spec
CONSTANT Guards = {"remove", "code"}
INVARIANTS Undamaged Installed Independent
CHECK_DEADLOCK FALSE

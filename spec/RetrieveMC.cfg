SPECIFICATION Spec
CONSTANT Guards = {"remove", "exit", "code"}
INVARIANTS Undamaged Installed Independent
CHECK_DEADLOCK FALSE
